// generated observation files with their exact content
#pragma once
#include "../sim/sim.hpp"
#include "doris_rinex.hpp"
#include "datetime/datetime_write.hpp"
#include <algorithm>
using namespace sim;
namespace {
struct Val { bool missing; double v; char f1, f2; };
struct Beacon { std::string id; std::vector<Val> v; };
struct Epoch { dso::datetime<dso::nanoseconds> t; int flag, clkflag; bool hasoff; double off; std::vector<Beacon> b; size_t from, to; };
struct Sta { std::string code, id, name, domes; int type, shift; };
struct File {
  std::vector<std::string> codes;           // "L1", "F"
  std::vector<int> factor;
  std::vector<Sta> sta;
  std::vector<Epoch> ep;
  dso::datetime<dso::nanoseconds> first, ref;
  bool has_ref = false, has_applied = false; int applied = 0;
  bool has_l12 = false; double l12 = 0;
  std::string sat, cospar, chain, type, vers; double pos[3], cm[3];
  std::string text;
  bool damaged = false; std::string damage = "none";
  size_t bad_from = 0; // blocks starting at or after this one cannot be delivered (index)
  bool bad_header = false, any_header = false; size_t maybe = ~(size_t)0; // only the last newline is missing: either answer is right
  bool end_ok = true;  // 'end of data' may be reported once all deliverable blocks are
};
dso::datetime<dso::nanoseconds> when(int mjd, int64_t ns) { return dso::datetime<dso::nanoseconds>(dso::modified_julian_day(mjd), dso::nanoseconds(ns)); }
std::string ymdhms(const dso::datetime<dso::nanoseconds> &t, int secw, int secd) {
  auto d = t.as_ymd(); int64_t ns = t.sec().as_underlying_type(); int64_t s = ns / 1000000000, r = ns % 1000000000;
  std::string sec = fmt("%02d.%09d", (int)(s % 60), (int)r).substr(0, 3 + secd);
  sec = std::string(secw - sec.size(), ' ') + sec;
  return fmt("%04d %02d %02d %02d %02d", d.__year.v, d.__month.v, d.__dom.v, (int)(s / 3600), (int)(s / 60 % 60)) + sec;
}
std::string pad(std::string s, size_t n) { if (s.size() < n) s.resize(n, ' '); return s; }
struct Opts { bool fit = false; bool mixed = false; }; // fit: receiver frequency offsets in every file, more epochs, small clock offsets
void make(File &F, bool may_damage, int tag, Opts opt = {}) {
  Rng r = Wrng();
  static const char *all[] = {"L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"};
  int nobs = Wc(300) ? 10 : 1 + (int)W(10);
  { std::vector<int> ix; for (int i = 0; i < 10; i++) ix.push_back(i);
    if (Wc(400)) for (int i = 9; i > 0; i--) std::swap(ix[i], ix[r.below(i + 1)]);
    for (int i = 0; i < nobs; i++) F.codes.push_back(all[ix[i]]);
    if (opt.fit && std::find(F.codes.begin(), F.codes.end(), "F") == F.codes.end() && r.below(20)) F.codes[r.below(nobs)] = "F"; }
  F.factor.assign(nobs, 1);
  bool strip = Wc(500);
  int nsta = Wc(20) ? 100 + (int)W(20) : 2 + (int)W(8);
  bool many = nsta >= 100;
  if (nsta > 99 && false) nsta = 99;
  for (int i = 0; i < nsta; i++) {
    Sta s; s.code = many && i > 98 ? fmt("D%c%d", 'A' + (i - 99) / 10, (i - 99) % 10) : fmt("D%02d", i + 1);
    s.id = fmt("%c%c%c%c", 'A' + (int)r.below(26), 'A' + (int)r.below(26), 'A' + i % 26, "ABC"[r.below(3)]);
    for (auto &o : F.sta) if (o.id == s.id) s.id = fmt("%c%c%cB", 'A' + i / 26, 'a' + i % 26, 'A' + i % 26);
    s.name = r.below(8) == 0 ? std::string("A LONG STATION NAME OF THIRTY_") .substr(0, 30) : fmt("STATION %d%s", i, r.below(3) ? "" : " NORTH");
    s.domes = fmt("%05dS%03d", (int)r.below(100000), (int)r.below(1000));
    s.type = 1 + r.below(4); s.shift = (int)r.below(40) - 20;
    F.sta.push_back(s);
  }
  int mjd = 50000 + (int)W(10000);
  int64_t t = (int64_t)W(86400) * 1000000000LL + W(1000000000);
  F.first = when(mjd, t);
  // ---- header
  std::string f;
  std::vector<std::string> H;
  auto line = [&](std::string body, const char *label) { std::string s = pad(body, 60) + label; if (!strip) s = pad(s, 80); return s; };
  f += line(pad("     3.00", 20) + pad("O", 20) + "D", "RINEX VERSION / TYPE") + "\n";
  f += line(pad("SIM", 20) + pad("CNES", 20) + "20200101 000000 UTC", "PGM / RUN BY / DATE") + "\n";
  auto text = [&](int max) { static const char ab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._/ "; int n = 1 + (int)r.below(r.below(6) ? 8 : max); std::string s; for (int i = 0; i < n; i++) s += ab[r.below(i && i + 1 < n ? sizeof ab - 1 : sizeof ab - 2)]; return s; };
  F.sat = r.below(2) ? "JASON-3" : text(58); F.chain = r.below(2) ? "CHAIN1" : text(18); F.type = r.below(2) ? "DGXX" : text(18); F.vers = r.below(2) ? "1.00" : text(18);
  for (int i = 0; i < 3; i++) F.pos[i] = std::round((r.u() - .5) * 1e5) / 1e4, F.cm[i] = std::round((r.u() - .5) * 1e5) / 1e4;
  H.push_back(line(F.sat, "SATELLITE NAME"));
  if (Wc(800)) { F.cospar = r.below(2) ? "2016-002A" : text(19); H.push_back(line(F.cospar, "COSPAR NUMBER")); }
  if (Wc(500)) H.push_back(line("SPACEBORNE", "MARKER TYPE"));
  if (Wc(500)) H.push_back(line(pad("SPA-BN1_4.7P1", 20) + "CNES", "OBSERVER / AGENCY"));
  H.push_back(line(pad(F.chain, 20) + pad(F.type, 20) + F.vers, "REC # / TYPE / VERS"));
  H.push_back(line(pad("DORIS", 20) + "STAREC", "ANT # / TYPE"));
  H.push_back(line(fmt("%14.4f%14.4f%14.4f", F.pos[0], F.pos[1], F.pos[2]), "APPROX POSITION XYZ"));
  H.push_back(line(fmt("%14.4f%14.4f%14.4f", F.cm[0], F.cm[1], F.cm[2]), "CENTER OF MASS: XYZ"));
  if (Wc(300)) H.push_back(line("a comment", "COMMENT"));
  std::vector<std::string> H2; // these follow the list of observables
  {
    std::string s = fmt("D%5d", nobs);
    for (auto &c : F.codes) s += fmt(" %3s", c.size() == 2 ? (c + " ").c_str() : ("  " + c).c_str());
    // identifiers as published: type and frequency in any of the three columns
    if (Wc(500)) { s = fmt("D%5d", nobs); for (auto &c : F.codes) s += fmt(" %3s", c.c_str()); }
    H.push_back(line(s, "SYS / # / OBS TYPES"));
  }
  int nfac = (int)W(3);
  static const int facs[] = {10, 100, 1000};
  std::vector<int> taken(nobs, 0);
  for (int k = 0; k < nfac; k++) {
    int fac = facs[r.below(3)];
    if (k == 0 && Wc(250)) { for (int i = 0; i < nobs; i++) F.factor[i] = fac; std::fill(taken.begin(), taken.end(), 1); H2.push_back(line(fmt("D %4d", fac), "SYS / SCALE FACTOR")); continue; }
    std::vector<int> pick; bool dense = k == 0 && r.below(6) == 0;
    for (int i = 0; i < nobs; i++) if (!taken[i] && (dense || r.below(3) == 0)) { pick.push_back(i); taken[i] = 1; F.factor[i] = fac; }
    if (pick.empty()) continue;
    std::string s = fmt("D %4d  %2d", fac, (int)pick.size());
    for (int i : pick) s += fmt(" %3s", F.codes[i].c_str());
    H2.push_back(line(s, "SYS / SCALE FACTOR"));
  }
  if (Wc(900)) { F.has_l12 = true; F.l12 = ((int)r.below(4000000) - 2000000) / 1000.; H2.push_back(line(fmt("D  %14.3f", F.l12), "L2 / L1 DATE OFFSET")); }
  H2.push_back(line(fmt("%s     DOR", ymdhms(F.first, 13, 7).c_str()), "TIME OF FIRST OBS"));
  { auto d = F.first.as_ymd(); int64_t ns = t / 100 * 100; (void)d; F.first = when(mjd, ns);
    std::string tm = fmt("  %04d    %02d    %02d    %02d    %02d", d.__year.v, d.__month.v, d.__dom.v, (int)(ns / 3600000000000LL), (int)(ns / 60000000000LL % 60)) + fmt("   %02d.%07d", (int)(ns / 1000000000 % 60), (int)(ns % 1000000000 / 100));
    H2.back() = line(pad(tm, 48) + "DOR", "TIME OF FIRST OBS"); }
  for (size_t i = H2.size(); i > 1; i--) std::swap(H2[i - 1], H2[r.below(i)]);
  for (auto &h : H2) H.push_back(h);
  H.push_back(line(fmt("%6d", nsta), "# OF STATIONS"));
  for (auto &s : F.sta) H.push_back(line(pad(s.code, 5) + pad(s.id, 5) + pad(s.name, 30) + pad(s.domes, 10) + fmt("%1d %3d", s.type, s.shift), "STATION REFERENCE"));
  int nref = opt.fit ? 1 : (int)W(std::min(4, nsta));
  if (nref) {
    H.push_back(line(fmt("%6d", nref), "# TIME REF STATIONS"));
    for (int i = 0; i < nref; i++) H.push_back(line(pad(F.sta[i].code, 5) + fmt("%14.3f%14.3f", -4.5 + i, 0.25), "TIME REF STATION"));
    F.has_ref = true; F.ref = when(mjd + 1, 43200000000000LL);
    auto d = F.ref.as_ymd();
    H.push_back(line(pad(fmt("  %04d    %02d    %02d    %02d    %02d   %02d.%07d", d.__year.v, d.__month.v, d.__dom.v, 12, 0, 0, 0), 48) + "DOR", "TIME REF STAT DATE"));
  }
  if (Wc(600)) { F.has_applied = true; F.applied = W(2); H.push_back(line(fmt("%6d", F.applied), "RCV CLOCK OFFS APPL")); }
  uint32_t dmg = may_damage ? W(9) : 0;
  if (dmg == 1) { // header damage
    F.damaged = F.bad_header = true;
    uint32_t k = W(16);
    size_t i;
    if (k == 0) { F.damage = "number of stations wrong"; for (auto &h : H) if (h.find("# OF STATIONS") == 60) h.replace(0, 6, fmt("%6d", nsta + 1)); }
    else if (k == 1) { F.damage = "list of observables missing"; for (i = 0; i < H.size(); i++) if (H[i].find("SYS / # / OBS TYPES") == 60) { H.erase(H.begin() + i); break; } }
    else if (k == 2) { F.damage = "station line unreadable"; for (auto &h : H) if (h.find("STATION REFERENCE") == 60) h.replace(50, 6, "x  yy "); }
    else if (k == 3) { F.damage = "number of observables absurd"; for (auto &h : H) if (h.find("SYS / # / OBS TYPES") == 60) h.replace(1, 5, r.below(2) ? "   99" : "   -1"); }
    else if (k == 4) { F.damage = "unknown observable"; for (auto &h : H) if (h.find("SYS / # / OBS TYPES") == 60) h.replace(7, 3, "Q1 "); }
    else if (k >= 6) {
      struct D { const char *what, *label; int at; const char *txt; };
      static const D ds[] = {{"satellite name blank", "SATELLITE NAME", 0, nullptr}, {"not a space receiver", "MARKER TYPE", 0, "GROUND CRAFT"}, {"receiver chain blank", "REC # / TYPE / VERS", 0, "                    "},
        {"receiver type blank", "REC # / TYPE / VERS", 20, "                    "}, {"receiver version blank", "REC # / TYPE / VERS", 40, "                    "}, {"unknown antenna", "ANT # / TYPE", 20, "STAREX"}, {"unknown antenna", "ANT # / TYPE", 0, "DORIX"},
        {"phase centre unreadable", "APPROX POSITION XYZ", 14, "          xxxx"}, {"mass centre unreadable", "CENTER OF MASS: XYZ", 28, "          ----"}, {"another time scale", "TIME OF FIRST OBS", 48, "GPS"},
        {"L2/L1 offset unreadable", "L2 / L1 DATE OFFSET", 3, "          x.yzw"}, {"L2/L1 offset of another system", "L2 / L1 DATE OFFSET", 0, "G"}, {"clock offset flag out of range", "RCV CLOCK OFFS APPL", 0, "     2"}, {"clock offset flag out of range", "RCV CLOCK OFFS APPL", 0, "    -1"}, {"clock offset flag unreadable", "RCV CLOCK OFFS APPL", 0, "     x"},
        {"reference station not in the list", "TIME REF STATION", 0, "X99"}, {"reference bias unreadable", "TIME REF STATION", 5, "         *****"}, {"reference shift unreadable", "TIME REF STATION", 19, "         *****"}, {"number of reference stations unreadable", "# TIME REF STATIONS", 0, "    ??"},
        {"reference epoch unreadable", "TIME REF STAT DATE", 0, "  ****    "}, {"scale factor unreadable", "SYS / SCALE FACTOR", 2, "  xx"}, {"scale factor zero", "SYS / SCALE FACTOR", 2, "   0"}, {"scale factor of another system", "SYS / SCALE FACTOR", 0, "G"}, {"number of stations unreadable", "# OF STATIONS", 0, "    ??"},
        {"version unreadable", "RINEX VERSION / TYPE", 0, "     x.yz"}, {"not an observation file", "RINEX VERSION / TYPE", 20, "N"}, {"not of this system", "RINEX VERSION / TYPE", 40, "G"}, {"second line missing", "PGM / RUN BY / DATE", 60, "COMMENT            "}};
      const D &d = ds[W(sizeof ds / sizeof *ds)];
      bool done = false;
      auto hit = [&](std::string &h) { if (done || h.compare(60, strlen(d.label), d.label)) return; done = true; std::string t = d.txt ? d.txt : std::string(58, ' '); h.replace(d.at, t.size(), t); };
      for (auto &h : H) hit(h);
      if (!done) { size_t a = f.find('\n'); std::string l1 = f.substr(0, a), l2 = f.substr(a + 1, f.size() - a - 2); hit(l1); hit(l2); f = l1 + "\n" + l2 + "\n"; }
      if (done) F.damage = d.what; else F.damaged = F.bad_header = false;
    }
    else { F.damage = "first epoch unreadable"; for (auto &h : H) if (h.find("TIME OF FIRST OBS") == 60) h.replace(0, 10, "  ****    "); }
  }
  for (auto &h : H) f += h + "\n";
  if (!(dmg == 1 && false)) f += line("", "END OF HEADER") + "\n";
  size_t header_end = f.size();
  // ---- epochs
  int ne = Wc(100) ? 0 : 1 + (int)W(many ? 3 : opt.fit ? 60 : 7);
  int victim = dmg >= 2 && dmg <= 5 && ne ? (int)W(ne) : -1;
  bool dense = opt.fit && r.below(3) == 0;
  for (int e = 0; e < ne; e++) {
    Epoch E;
    t += (int64_t)(1 + r.below(dense ? 2 : 20)) * 1000000000LL * (dense || r.below(4) ? 1 : 1000) + r.below(1000000000);
    E.t = when(mjd + (int)(t / 86400000000000LL), t % 86400000000000LL);
    E.flag = r.below(10) == 0; E.clkflag = r.below(5) == 0;
    E.hasoff = r.below(6) != 0;
    std::string off = fmt("%13.9f", (r.u() - .5) * (opt.fit ? .8 : 20)); E.off = strtod(off.c_str(), 0);
    int nb = many && r.below(2) ? nsta : 1 + (int)r.below(std::min(nsta, 6));
    if (r.below(25) == 0) nb = 0;
    if (e == victim && nb == 0) nb = 1;
    std::string h = "> " + ymdhms(E.t, 13, 9) + fmt("  %1d%3d      ", E.flag, nb);
    if (E.hasoff) h += off + fmt(" %1d ", E.clkflag); else { h += std::string(13, ' '); if (r.below(2)) h += fmt(" %1d ", E.clkflag = 0); else { h += "   "; E.clkflag = 0; } }
    if (strip) h.resize(h.find_last_not_of(' ') + 1);
    std::vector<std::string> L{h};
    std::string frq = fmt("%14.3f", (r.u() - .5) * 40); bool nofrq = r.below(12) == 0;
    std::vector<int> ix; for (int i = 0; i < nsta; i++) ix.push_back(i);
    for (int b = 0; b < nb; b++) {
      std::swap(ix[b], ix[b + r.below(nsta - b)]);
      Beacon B; B.id = F.sta[ix[b]].code;
      std::string l = B.id;
      for (int o = 0; o < nobs; o++) {
        if (o && o % 5 == 0) { L.push_back(l); l = "   "; }
        Val v; std::string s;
        uint32_t k = r.below(10);
        v.f1 = ' '; v.f2 = ' ';
        if (opt.mixed && b && F.codes[o] == "F" && r.below(60) == 0) { frq = fmt("%14.3f", (r.u() - .5) * 40); nofrq = false; }
        if (opt.fit && F.codes[o] == "F") { v.missing = nofrq; s = nofrq ? std::string(14, ' ') : frq; v.v = strtod(s.c_str(), 0); if (v.v == 0) v.missing = true; else v.v /= F.factor[o]; }
        else if (k == 0) { v.missing = true; s = std::string(14, ' '); }
        else if (k == 1) { v.missing = true; s = fmt("%14.3f", 0.); }
        else {
          v.missing = false; double x = (r.u() - .5) * std::pow(10., (double)r.below(9));
          if (r.below(15) == 0) x = -123456789.123 + r.below(1000);
          s = fmt("%14.3f", x); v.v = strtod(s.c_str(), 0);
          if (v.v == 0) v.missing = true; else v.v /= F.factor[o];
          if (r.below(3) == 0) v.f1 = '1' + r.below(3);
          if (r.below(2)) v.f2 = '1' + r.below(9);
        }
        l += s + v.f1 + v.f2;
        B.v.push_back(v);
      }
      L.push_back(l);
      E.b.push_back(B);
    }
    for (auto &l : L) if (strip) { size_t q = l.find_last_not_of(' '); l.resize(q == std::string::npos ? 0 : q + 1); }
    if (e == victim) {
      F.damaged = true; F.bad_from = e;
      size_t li = 1 + W(L.size() - 1);
      if (dmg == 2) { F.damage = fmt("epoch line %d unreadable", e); static const int at[] = {0, 7, 25, 33, 36}; int p = at[W(5)]; L[0][p] = '*'; }
      else if (dmg == 3) { F.damage = fmt("a data line of epoch %d missing", e); L.erase(L.begin() + li); }
      else if (dmg == 4) { // a value unreadable
        bool done = false;
        for (size_t i = 0; i < L.size() - 1 && !done; i++) { auto &l = L[1 + (li - 1 + i) % (L.size() - 1)]; for (size_t p = 3; p + 14 <= l.size() && !done; p += 16) if (l[p + 13] != ' ') { uint32_t c = W(3); l[p + 12 - W(c == 2 ? 2 : 5)] = "*z-"[c]; done = true; } }
        if (done) F.damage = fmt("a value of epoch %d unreadable", e); else { F.damaged = false; victim = -2; }
      } else { F.damage = fmt("beacon of epoch %d unreadable", e); auto &l = L[1 + (int)((li - 1) / ((nobs + 4) / 5)) * ((nobs + 4) / 5)]; l[0] = "*? "[W(3)]; }
    }
    E.from = f.size();
    for (auto &l : L) f += l + "\n";
    E.to = f.size();
    F.ep.push_back(E);
  }
  if (victim == -2) F.damage = "none";
  if (!F.damaged) F.bad_from = F.ep.size();
  if (dmg >= 6 && f.size() > 2) { // cut short
    size_t cut = dmg == 6 || header_end == f.size() ? W(f.size()) : header_end + W(f.size() - header_end);
    if (dmg == 8 && !F.ep.empty()) { auto &E = F.ep[W(F.ep.size())]; cut = E.to - W(std::min<size_t>(E.to - E.from, 100)); }
    F.damaged = true; F.damage = fmt("cut after %zu of %zu bytes", cut, f.size());
    F.bad_from = F.ep.size(); F.bad_header = cut < header_end;
    F.end_ok = cut == header_end;
    for (size_t i = F.ep.size(); i-- > 0;) {
      if (cut < F.ep[i].to) F.bad_from = i;
      if (cut == F.ep[i].to) F.end_ok = true;
      if (cut + 1 == F.ep[i].to) { F.end_ok = true; F.maybe = i; F.bad_from = i + 1; }
    }
    if (cut == header_end - 1) F.bad_header = false, F.any_header = true, F.end_ok = true;
    f.resize(cut);
  } else if (F.damaged) F.end_ok = false;
  F.text = f;
  note("file %d: %d observables, %d stations, %zu epochs, %zu bytes, trailing blanks %s, %s", tag, nobs, nsta, F.ep.size(), f.size(), strip ? "stripped" : "kept", F.damage.c_str());
}
}
