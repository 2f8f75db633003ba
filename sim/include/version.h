// Stand-in for the header that the build generates.
#pragma once
#define PDAAAL_GIT_HASH_STR "simulated"
#define PDAAAL_VERSION_STR "0.0"
