// Simulator seam: makes absl::Hash read its per-process seed from a variable instead of from an address,
// so that the simulator decides the iteration order of hash containers.
#pragma once
#if defined(PDAAAL_SIMULATION)
#include <absl/base/config.h>
#include <absl/base/internal/endian.h>
#include <absl/base/port.h>
#include <absl/base/internal/unaligned_access.h>
#include <absl/container/fixed_array.h>
#include <absl/functional/function_ref.h>
#include <absl/hash/internal/city.h>
#include <absl/hash/internal/low_level_hash.h>
#include <absl/meta/type_traits.h>
#include <absl/numeric/bits.h>
#include <absl/numeric/int128.h>
#include <absl/strings/string_view.h>
#include <absl/types/optional.h>
#include <absl/types/variant.h>
#include <absl/utility/utility.h>
#pragma push_macro("__apple_build_version__")
#define __apple_build_version__ 1
#include_next <absl/hash/hash.h>
#undef __apple_build_version__
#pragma pop_macro("__apple_build_version__")
#else
#include_next <absl/hash/hash.h>
#endif
