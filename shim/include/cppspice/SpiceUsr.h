/* Stand-in for the CSPICE interface: declarations only; the simulated toolkit
 * lives in the harness. */
#ifndef VERIF_SHIM_SPICE_H
#define VERIF_SHIM_SPICE_H
extern "C" {
typedef int SpiceInt;
typedef int SpiceBoolean;
typedef char SpiceChar;
typedef double SpiceDouble;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#define SPICEFALSE 0
#define SPICETRUE 1
void ktotal_c(ConstSpiceChar *kind, SpiceInt *count);
void kdata_c(SpiceInt which, ConstSpiceChar *kind, SpiceInt filelen, SpiceInt filtln, SpiceInt srclen, SpiceChar *file,
             SpiceChar *filtyp, SpiceChar *source, SpiceInt *handle, SpiceBoolean *found);
void kinfo_c(ConstSpiceChar *file, SpiceInt filtln, SpiceInt srclen, SpiceChar *filtyp, SpiceChar *source,
             SpiceInt *handle, SpiceBoolean *found);
void furnsh_c(ConstSpiceChar *file);
void unload_c(ConstSpiceChar *file);
void kclear_c();
void bodvrd_c(ConstSpiceChar *body, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values);
void spkezp_c(SpiceInt targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, SpiceInt obs, SpiceDouble *pos,
              SpiceDouble *lt);
void spkezr_c(ConstSpiceChar *targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, ConstSpiceChar *obs,
              SpiceDouble *state, SpiceDouble *lt);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar *insys, ConstSpiceChar *outsys);
SpiceBoolean failed_c();
void reset_c();
void erract_c(ConstSpiceChar *op, SpiceInt len, SpiceChar *action);
void errprt_c(ConstSpiceChar *op, SpiceInt len, SpiceChar *list);
void getmsg_c(ConstSpiceChar *option, SpiceInt len, SpiceChar *msg);
SpiceBoolean return_c();
}
#endif
