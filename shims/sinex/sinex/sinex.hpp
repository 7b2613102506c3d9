// stand-in for the part of the (absent) SINEX library get_pdop_crd.cpp uses: reads the two blocks
// from the simulated disk, reports any failure to read them
#pragma once
#include "datetime/dtcalendar.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
namespace dso {
namespace sinex {
struct SiteId { char m_site_code[5] = {0}, m_point_code[3] = {0}, m_domes[10] = {0}; };
struct SolutionEstimate {
  int m_index = 0; char m_param_type[7] = {0}, m_site_code[5] = {0}, m_point_code[3] = {0}, m_soln_id[5] = {0};
  dso::datetime<dso::seconds> m_epoch; char m_units[5] = {0}; char m_constraint[2] = {0}; double m_estimate = 0, m_std_deviation = 0;
};
}
class Sinex {
  std::string m_filename; std::ifstream m_stream;
  int go(const char *block) {
    m_stream.clear(); m_stream.seekg(0); std::string l;
    while (std::getline(m_stream, l)) if (l == std::string("+") + block) return 0;
    return 1;
  }
public:
  explicit Sinex(const char *fn) : m_filename(fn), m_stream(fn) {
    std::string l;
    if (!std::getline(m_stream, l) || l.compare(0, 5, "%=SNX")) throw std::runtime_error("[ERROR] Failed to resolve first SINEX line");
  }
  std::string filename() const { return m_filename; }
  int parse_block_site_id(std::vector<sinex::SiteId> &out, int n, char *ids[]) noexcept {
    out.clear();
    if (go("SITE/ID")) return 1;
    std::string l;
    while (std::getline(m_stream, l)) {
      if (l == "-SITE/ID") return 0;
      if (l.empty() || l[0] != ' ') continue;
      if (l.size() < 21) return 2;
      for (int i = 0; i < n; i++) if (!std::strncmp(l.c_str() + 1, ids[i], 4)) { sinex::SiteId s; std::memcpy(s.m_site_code, l.c_str() + 1, 4); std::memcpy(s.m_point_code, l.c_str() + 6, 2); std::memcpy(s.m_domes, l.c_str() + 9, 9); out.push_back(s); break; }
    }
    return 3;
  }
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &out, const std::vector<sinex::SiteId> &sites) noexcept {
    out.clear();
    if (go("SOLUTION/ESTIMATE")) return 1;
    std::string l;
    while (std::getline(m_stream, l)) {
      if (l == "-SOLUTION/ESTIMATE") { out.shrink_to_fit(); return 0; }
      if (l.empty() || l[0] != ' ') continue;
      if (l.size() < 80) return 2;
      const char *p = l.c_str();
      for (auto &s : sites) if (!std::strncmp(p + 14, s.m_site_code, 4) && !std::strncmp(p + 19, s.m_point_code, 2)) {
        sinex::SolutionEstimate e; e.m_index = atoi(l.substr(1, 5).c_str()); std::memcpy(e.m_param_type, p + 7, 6); std::memcpy(e.m_site_code, p + 14, 4); std::memcpy(e.m_point_code, p + 19, 2); std::memcpy(e.m_soln_id, p + 22, 4);
        int y = atoi(l.substr(27, 2).c_str()), d = atoi(l.substr(30, 3).c_str()); long sec = atol(l.substr(34, 5).c_str());
        e.m_epoch = dso::datetime<dso::seconds>(dso::year(y > 50 ? 1900 + y : 2000 + y), dso::day_of_year(d), dso::seconds(sec));
        std::memcpy(e.m_units, p + 40, 4); e.m_constraint[0] = p[45];
        char *end; e.m_estimate = strtod(p + 47, &end); if (end == p + 47) return 2; e.m_std_deviation = strtod(p + 69, &end); out.push_back(e); break;
      }
    }
    return 3;
  }
};
}
