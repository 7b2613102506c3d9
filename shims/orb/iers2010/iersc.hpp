// stand-in: constants of the IERS 2010 conventions
#pragma once
namespace iers2010 {
constexpr double DPI = 3.141592653589793238462643, D2PI = 2 * DPI, DAS2R = DPI / 180 / 3600, DMAS2R = DAS2R * 1e-3, DR2AS = 180 * 3600 / DPI, TURNAS = 1296000.;
constexpr double GMe = 3.986004418e14, Re = 6378136.6, J2 = 1.0826359e-3, OmegaEarth = 7.292115e-5, C = 299792458., Rs = 696000000., AU = 149597870700.;
}
