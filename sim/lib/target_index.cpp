// Lists the generated wrappers; linked into the simulated image.
#include "ops.hpp"
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/quat.hpp>
#define X(n) extern const OpDesc zcm_ops_##n[]; extern const unsigned zcm_nops_##n;
#include "ops_index.inc"
#undef X
struct OpShard { const OpDesc* ops; const unsigned* n; };
extern "C" __attribute__((visibility("default"))) const OpShard* zcm_shards(unsigned* n)
{
    static constexpr OpShard s[] = {
#define X(n) {zcm_ops_##n, &zcm_nops_##n},
#include "ops_index.inc"
    };
    *n = sizeof s / sizeof s[0];
    return s;
}
#define A(t) {sizeof(t), alignof(t)}
struct SizeAlign { unsigned s, a; };
extern "C" __attribute__((visibility("default"))) const SizeAlign* zcm_layout()
{
    using namespace zcm;
    static constexpr SizeAlign l[T_COUNT] = {{0, 1}, A(float), A(int), A(unsigned), A(bool), A(size_t), A(vec2), A(vec3), A(vec4), A(ivec2), A(ivec3), A(ivec4), A(bvec2), A(bvec3), A(bvec4), A(mat2), A(mat3), A(mat4), A(quat)};
    return l;
}
