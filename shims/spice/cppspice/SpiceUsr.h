/* stand-in for the part of the (absent) CSPICE toolkit these sources use; the simulated toolkit is in the harness */
#pragma once
typedef int SpiceInt;
typedef char SpiceChar;
typedef double SpiceDouble;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#define SPICETRUE 1
#define SPICEFALSE 0
extern "C" {
void furnsh_c(ConstSpiceChar *file);
void unload_c(ConstSpiceChar *file);
void kclear_c(void);
void ktotal_c(ConstSpiceChar *kind, SpiceInt *count);
void kdata_c(SpiceInt which, ConstSpiceChar *kind, SpiceInt fillen, SpiceInt typlen, SpiceInt srclen, SpiceChar *file, SpiceChar *filtyp, SpiceChar *source, SpiceInt *handle, SpiceBoolean *found);
void kinfo_c(ConstSpiceChar *file, SpiceInt typlen, SpiceInt srclen, SpiceChar *filtyp, SpiceChar *source, SpiceInt *handle, SpiceBoolean *found);
SpiceBoolean failed_c(void);
void reset_c(void);
void erract_c(ConstSpiceChar *op, SpiceInt lenout, SpiceChar *action);
void getmsg_c(ConstSpiceChar *option, SpiceInt lenout, SpiceChar *msg);
void bodvrd_c(ConstSpiceChar *bodynm, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values);
void bodvcd_c(SpiceInt body, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar *insys, ConstSpiceChar *outsys);
void spkezp_c(SpiceInt targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, SpiceInt obs, SpiceDouble ptarg[3], SpiceDouble *lt);
void spkpos_c(ConstSpiceChar *targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, ConstSpiceChar *obs, SpiceDouble ptarg[3], SpiceDouble *lt);
}
