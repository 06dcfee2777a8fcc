// Long histories of the operations that belong to one property (LONG = its number).
#define MC_MAIN
#include "longrun.hpp"
using namespace mc;
using namespace mc::ops;

static bool which(const Op& o)
{
    bool fails = o.flags & FAIL;
    switch (LONG) {
    case 1: return named(o, {"cipher."}) && (!fails || part(o, "empty"));
    case 2: return named(o, {"cipher.decrypt", "cipher.roundtrip"});
    case 4: return named(o, {"prg."});
    case 5: return named(o, {"prf", "hmac", "hash"});
    case 6: return named(o, {"prp."});
    case 7: return named(o, {"rcprf", "crcprf"}) && !fails;
    case 8: return named(o, {"rcprf", "crcprf"}) && (fails || part(o, "eval"));
    case 9: return named(o, {"sethash"});
    case 10: return part(o, "wrap") || part(o, "rewrap");
    case 11: return named(o, {"wrapper"}) || part(o, "wrap");
    case 13: return named(o, {"key."}) || part(o, "move") || part(o, "moved-from") || part(o, "empty-key") || part(o, "derive_key");
    case 14: return named(o, {"tdp.eval", "tdp.copy", "tdp.assign", "tdpi.invert", "tdpi.eval", "tdpi.invert_mult"});
    case 15: return named(o, {"pool."});
    case 16: return part(o, "sample") || part(o, "generate");
    case 17: return named(o, {"tdp", "tdpi"}) && (part(o, "import") || part(o, "public_key") || part(o, "private_key"));
    case 22: return fails;
    }
    return false;
}
static void explore(Ctx& ctx)
{
    init_crypto_lib();
    Rng::install();
    long_runs(ctx, which);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
