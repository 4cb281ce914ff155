// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0])[0u] += *(const int32_t*)a[1]; }
void o1(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y += *(const int32_t*)a[1]; }
void o2(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y -= *(const int32_t*)a[1]; }
void o3(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y *= *(const int32_t*)a[1]; }
void o4(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y /= *(const int32_t*)a[1]; }
void o5(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y %= *(const int32_t*)a[1]; }
void o6(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y |= *(const int32_t*)a[1]; }
void o7(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y &= *(const int32_t*)a[1]; }
void o8(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y ^= *(const int32_t*)a[1]; }
void o9(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y <<= *(const int32_t*)a[1]; }
void o10(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).y >>= *(const int32_t*)a[1]; }
void o11(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec2*)a[0]).y); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec2*)a[0]).y++); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec2*)a[0]).y); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec2*)a[0]).y--); }
void o15(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).g -= *(const int32_t*)a[1]; }
void o16(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0]).t += *(const int32_t*)a[1]; }
void o17(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec2*)a[0]).y); }
void o18(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0])[1u] = *(const int32_t*)a[1]; }
void o19(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec2*)a[0])[1u] += *(const int32_t*)a[1]; }
void o20(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x += *(const int32_t*)a[1]; }
void o21(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x -= *(const int32_t*)a[1]; }
void o22(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x *= *(const int32_t*)a[1]; }
void o23(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x /= *(const int32_t*)a[1]; }
void o24(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x %= *(const int32_t*)a[1]; }
void o25(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x |= *(const int32_t*)a[1]; }
void o26(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x &= *(const int32_t*)a[1]; }
void o27(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x ^= *(const int32_t*)a[1]; }
void o28(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x <<= *(const int32_t*)a[1]; }
void o29(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).x >>= *(const int32_t*)a[1]; }
void o30(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec3*)a[0]).x); }
void o31(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec3*)a[0]).x++); }
void o32(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec3*)a[0]).x); }
void o33(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec3*)a[0]).x--); }
void o34(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).r -= *(const int32_t*)a[1]; }
void o35(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).s += *(const int32_t*)a[1]; }
void o36(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec3*)a[0]).x); }
void o37(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0])[0u] = *(const int32_t*)a[1]; }
void o38(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0])[0u] += *(const int32_t*)a[1]; }
void o39(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y += *(const int32_t*)a[1]; }
void o40(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y -= *(const int32_t*)a[1]; }
void o41(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y *= *(const int32_t*)a[1]; }
void o42(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y /= *(const int32_t*)a[1]; }
void o43(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y %= *(const int32_t*)a[1]; }
void o44(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y |= *(const int32_t*)a[1]; }
void o45(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y &= *(const int32_t*)a[1]; }
void o46(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y ^= *(const int32_t*)a[1]; }
void o47(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y <<= *(const int32_t*)a[1]; }
void o48(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).y >>= *(const int32_t*)a[1]; }
void o49(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec3*)a[0]).y); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec3*)a[0]).y++); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec3*)a[0]).y); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec3*)a[0]).y--); }
void o53(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).g -= *(const int32_t*)a[1]; }
void o54(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).t += *(const int32_t*)a[1]; }
void o55(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec3*)a[0]).y); }
void o56(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0])[1u] = *(const int32_t*)a[1]; }
void o57(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0])[1u] += *(const int32_t*)a[1]; }
void o58(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z += *(const int32_t*)a[1]; }
void o59(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z -= *(const int32_t*)a[1]; }
void o60(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z *= *(const int32_t*)a[1]; }
void o61(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z /= *(const int32_t*)a[1]; }
void o62(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z %= *(const int32_t*)a[1]; }
void o63(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z |= *(const int32_t*)a[1]; }
void o64(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z &= *(const int32_t*)a[1]; }
void o65(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z ^= *(const int32_t*)a[1]; }
void o66(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z <<= *(const int32_t*)a[1]; }
void o67(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).z >>= *(const int32_t*)a[1]; }
void o68(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec3*)a[0]).z); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec3*)a[0]).z++); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec3*)a[0]).z); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec3*)a[0]).z--); }
void o72(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).b -= *(const int32_t*)a[1]; }
void o73(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]).p += *(const int32_t*)a[1]; }
void o74(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec3*)a[0]).z); }
void o75(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0])[2u] = *(const int32_t*)a[1]; }
void o76(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0])[2u] += *(const int32_t*)a[1]; }
void o77(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x += *(const int32_t*)a[1]; }
void o78(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x -= *(const int32_t*)a[1]; }
void o79(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x *= *(const int32_t*)a[1]; }
void o80(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x /= *(const int32_t*)a[1]; }
void o81(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x %= *(const int32_t*)a[1]; }
void o82(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x |= *(const int32_t*)a[1]; }
void o83(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x &= *(const int32_t*)a[1]; }
void o84(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x ^= *(const int32_t*)a[1]; }
void o85(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x <<= *(const int32_t*)a[1]; }
void o86(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).x >>= *(const int32_t*)a[1]; }
void o87(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec4*)a[0]).x); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).x++); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec4*)a[0]).x); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).x--); }
void o91(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).r -= *(const int32_t*)a[1]; }
void o92(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).s += *(const int32_t*)a[1]; }
void o93(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec4*)a[0]).x); }
void o94(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[0u] = *(const int32_t*)a[1]; }
void o95(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[0u] += *(const int32_t*)a[1]; }
void o96(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y += *(const int32_t*)a[1]; }
void o97(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y -= *(const int32_t*)a[1]; }
void o98(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y *= *(const int32_t*)a[1]; }
void o99(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y /= *(const int32_t*)a[1]; }
void o100(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y %= *(const int32_t*)a[1]; }
void o101(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y |= *(const int32_t*)a[1]; }
void o102(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y &= *(const int32_t*)a[1]; }
void o103(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y ^= *(const int32_t*)a[1]; }
void o104(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y <<= *(const int32_t*)a[1]; }
void o105(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).y >>= *(const int32_t*)a[1]; }
void o106(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec4*)a[0]).y); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).y++); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec4*)a[0]).y); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).y--); }
void o110(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).g -= *(const int32_t*)a[1]; }
void o111(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).t += *(const int32_t*)a[1]; }
void o112(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec4*)a[0]).y); }
void o113(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[1u] = *(const int32_t*)a[1]; }
void o114(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[1u] += *(const int32_t*)a[1]; }
void o115(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z += *(const int32_t*)a[1]; }
void o116(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z -= *(const int32_t*)a[1]; }
void o117(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z *= *(const int32_t*)a[1]; }
void o118(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z /= *(const int32_t*)a[1]; }
void o119(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z %= *(const int32_t*)a[1]; }
void o120(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z |= *(const int32_t*)a[1]; }
void o121(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z &= *(const int32_t*)a[1]; }
void o122(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z ^= *(const int32_t*)a[1]; }
void o123(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z <<= *(const int32_t*)a[1]; }
void o124(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).z >>= *(const int32_t*)a[1]; }
void o125(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec4*)a[0]).z); }
void o126(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).z++); }
void o127(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec4*)a[0]).z); }
void o128(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).z--); }
void o129(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).b -= *(const int32_t*)a[1]; }
void o130(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).p += *(const int32_t*)a[1]; }
void o131(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec4*)a[0]).z); }
void o132(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[2u] = *(const int32_t*)a[1]; }
void o133(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[2u] += *(const int32_t*)a[1]; }
void o134(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w += *(const int32_t*)a[1]; }
void o135(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w -= *(const int32_t*)a[1]; }
void o136(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w *= *(const int32_t*)a[1]; }
void o137(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w /= *(const int32_t*)a[1]; }
void o138(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w %= *(const int32_t*)a[1]; }
void o139(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w |= *(const int32_t*)a[1]; }
void o140(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w &= *(const int32_t*)a[1]; }
void o141(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w ^= *(const int32_t*)a[1]; }
void o142(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w <<= *(const int32_t*)a[1]; }
void o143(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).w >>= *(const int32_t*)a[1]; }
void o144(void* const* a, void* r) { (void)a; (void)r; R(INT, ++(*(zcm::ivec4*)a[0]).w); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).w++); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(INT, --(*(zcm::ivec4*)a[0]).w); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0]).w--); }
void o148(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).a -= *(const int32_t*)a[1]; }
void o149(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]).q += *(const int32_t*)a[1]; }
void o150(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec4*)a[0]).w); }
void o151(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[3u] = *(const int32_t*)a[1]; }
void o152(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[3u] += *(const int32_t*)a[1]; }
void o153(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]).x = *(const bool*)a[1]; }
void o154(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0])[0u] = *(const bool*)a[1]; }
void o155(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0])[0u] ^= *(const bool*)a[1]; }
void o156(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec2*)a[0]))[0] = *(const bool*)a[1]; }
void o157(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0]).y = *(const bool*)a[1]; }
void o158(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0])[1u] = *(const bool*)a[1]; }
void o159(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec2*)a[0])[1u] ^= *(const bool*)a[1]; }
void o160(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec2*)a[0]))[1] = *(const bool*)a[1]; }
void o161(void* const* a, void* r) { (void)a; (void)r; const bool* p = zcm::value_ptr(*(const zcm::bvec2*)a[0]); for(int i=0;i<2;i++) ((bool*)r)[i]=p[i]; }
void o162(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]).x = *(const bool*)a[1]; }
void o163(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0])[0u] = *(const bool*)a[1]; }
void o164(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0])[0u] ^= *(const bool*)a[1]; }
void o165(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec3*)a[0]))[0] = *(const bool*)a[1]; }
void o166(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]).y = *(const bool*)a[1]; }
void o167(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0])[1u] = *(const bool*)a[1]; }
void o168(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0])[1u] ^= *(const bool*)a[1]; }
void o169(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec3*)a[0]))[1] = *(const bool*)a[1]; }
void o170(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0]).z = *(const bool*)a[1]; }
void o171(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0])[2u] = *(const bool*)a[1]; }
void o172(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec3*)a[0])[2u] ^= *(const bool*)a[1]; }
void o173(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec3*)a[0]))[2] = *(const bool*)a[1]; }
void o174(void* const* a, void* r) { (void)a; (void)r; const bool* p = zcm::value_ptr(*(const zcm::bvec3*)a[0]); for(int i=0;i<3;i++) ((bool*)r)[i]=p[i]; }
void o175(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]).x = *(const bool*)a[1]; }
void o176(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[0u] = *(const bool*)a[1]; }
void o177(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[0u] ^= *(const bool*)a[1]; }
void o178(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec4*)a[0]))[0] = *(const bool*)a[1]; }
void o179(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]).y = *(const bool*)a[1]; }
void o180(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[1u] = *(const bool*)a[1]; }
void o181(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0])[1u] ^= *(const bool*)a[1]; }
void o182(void* const* a, void* r) { (void)a; (void)r; zcm::value_ptr((*(zcm::bvec4*)a[0]))[1] = *(const bool*)a[1]; }
void o183(void* const* a, void* r) { (void)a; (void)r; (*(zcm::bvec4*)a[0]).z = *(const bool*)a[1]; }
}
extern const OpDesc zcm_ops_10[] = {
  {"ivec2.[0] +=", o0, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec2.y +=", o1, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.y -=", o2, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.y *=", o3, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.y /=", o4, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 4, 4},
  {"ivec2.y %=", o5, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 4, 4},
  {"ivec2.y |=", o6, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.y &=", o7, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.y ^=", o8, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.y <<=", o9, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 4, 4},
  {"ivec2.y >>=", o10, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 4, 4},
  {"ivec2.++y", o11, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 4, 4},
  {"ivec2.y++", o12, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 4, 4},
  {"ivec2.--y", o13, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 4, 4},
  {"ivec2.y--", o14, T_INT, 1, {{T_IVEC2, 2, D_ANY, 0}}, 4, 4},
  {"ivec2.g -=", o15, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.t +=", o16, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.y read", o17, T_INT, 1, {{T_IVEC2, 1, D_ANY, 0}}, -1, 0},
  {"ivec2.[1] =", o18, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec2.[1] +=", o19, T_VOID, 2, {{T_IVEC2, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.x +=", o20, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.x -=", o21, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.x *=", o22, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.x /=", o23, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 0, 4},
  {"ivec3.x %=", o24, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 0, 4},
  {"ivec3.x |=", o25, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.x &=", o26, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.x ^=", o27, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.x <<=", o28, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 0, 4},
  {"ivec3.x >>=", o29, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 0, 4},
  {"ivec3.++x", o30, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 0, 4},
  {"ivec3.x++", o31, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 0, 4},
  {"ivec3.--x", o32, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 0, 4},
  {"ivec3.x--", o33, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 0, 4},
  {"ivec3.r -=", o34, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.s +=", o35, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.x read", o36, T_INT, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.[0] =", o37, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.[0] +=", o38, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec3.y +=", o39, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.y -=", o40, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.y *=", o41, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.y /=", o42, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 4, 4},
  {"ivec3.y %=", o43, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 4, 4},
  {"ivec3.y |=", o44, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.y &=", o45, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.y ^=", o46, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.y <<=", o47, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 4, 4},
  {"ivec3.y >>=", o48, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 4, 4},
  {"ivec3.++y", o49, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 4, 4},
  {"ivec3.y++", o50, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 4, 4},
  {"ivec3.--y", o51, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 4, 4},
  {"ivec3.y--", o52, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 4, 4},
  {"ivec3.g -=", o53, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.t +=", o54, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.y read", o55, T_INT, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.[1] =", o56, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.[1] +=", o57, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec3.z +=", o58, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.z -=", o59, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.z *=", o60, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.z /=", o61, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 8, 4},
  {"ivec3.z %=", o62, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 8, 4},
  {"ivec3.z |=", o63, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.z &=", o64, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.z ^=", o65, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.z <<=", o66, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 8, 4},
  {"ivec3.z >>=", o67, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 8, 4},
  {"ivec3.++z", o68, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 8, 4},
  {"ivec3.z++", o69, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 8, 4},
  {"ivec3.--z", o70, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 8, 4},
  {"ivec3.z--", o71, T_INT, 1, {{T_IVEC3, 2, D_ANY, 0}}, 8, 4},
  {"ivec3.b -=", o72, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.p +=", o73, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.z read", o74, T_INT, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.[2] =", o75, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec3.[2] +=", o76, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.x +=", o77, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.x -=", o78, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.x *=", o79, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.x /=", o80, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 0, 4},
  {"ivec4.x %=", o81, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 0, 4},
  {"ivec4.x |=", o82, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.x &=", o83, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.x ^=", o84, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.x <<=", o85, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 0, 4},
  {"ivec4.x >>=", o86, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 0, 4},
  {"ivec4.++x", o87, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 0, 4},
  {"ivec4.x++", o88, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 0, 4},
  {"ivec4.--x", o89, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 0, 4},
  {"ivec4.x--", o90, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 0, 4},
  {"ivec4.r -=", o91, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.s +=", o92, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.x read", o93, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.[0] =", o94, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.[0] +=", o95, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 0, 4},
  {"ivec4.y +=", o96, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.y -=", o97, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.y *=", o98, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.y /=", o99, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 4, 4},
  {"ivec4.y %=", o100, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 4, 4},
  {"ivec4.y |=", o101, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.y &=", o102, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.y ^=", o103, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.y <<=", o104, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 4, 4},
  {"ivec4.y >>=", o105, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 4, 4},
  {"ivec4.++y", o106, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 4, 4},
  {"ivec4.y++", o107, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 4, 4},
  {"ivec4.--y", o108, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 4, 4},
  {"ivec4.y--", o109, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 4, 4},
  {"ivec4.g -=", o110, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.t +=", o111, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.y read", o112, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.[1] =", o113, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.[1] +=", o114, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 4, 4},
  {"ivec4.z +=", o115, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.z -=", o116, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.z *=", o117, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.z /=", o118, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 8, 4},
  {"ivec4.z %=", o119, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 8, 4},
  {"ivec4.z |=", o120, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.z &=", o121, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.z ^=", o122, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.z <<=", o123, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 8, 4},
  {"ivec4.z >>=", o124, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 8, 4},
  {"ivec4.++z", o125, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 8, 4},
  {"ivec4.z++", o126, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 8, 4},
  {"ivec4.--z", o127, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 8, 4},
  {"ivec4.z--", o128, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 8, 4},
  {"ivec4.b -=", o129, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.p +=", o130, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.z read", o131, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.[2] =", o132, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.[2] +=", o133, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 8, 4},
  {"ivec4.w +=", o134, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.w -=", o135, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.w *=", o136, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.w /=", o137, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 12, 4},
  {"ivec4.w %=", o138, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, 12, 4},
  {"ivec4.w |=", o139, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.w &=", o140, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.w ^=", o141, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.w <<=", o142, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 12, 4},
  {"ivec4.w >>=", o143, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_SHIFT, 0}}, 12, 4},
  {"ivec4.++w", o144, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 12, 4},
  {"ivec4.w++", o145, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 12, 4},
  {"ivec4.--w", o146, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 12, 4},
  {"ivec4.w--", o147, T_INT, 1, {{T_IVEC4, 2, D_ANY, 0}}, 12, 4},
  {"ivec4.a -=", o148, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.q +=", o149, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.w read", o150, T_INT, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.[3] =", o151, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"ivec4.[3] +=", o152, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, 12, 4},
  {"bvec2.x =", o153, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec2.[0] =", o154, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec2.[0] ^=", o155, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec2.value_ptr[0] =", o156, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec2.y =", o157, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec2.[1] =", o158, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec2.[1] ^=", o159, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec2.value_ptr[1] =", o160, T_VOID, 2, {{T_BVEC2, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"value_ptr(const bvec2)", o161, T_BVEC2, 1, {{T_BVEC2, 1, D_ANY, 0}}, -1, 0},
  {"bvec3.x =", o162, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec3.[0] =", o163, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec3.[0] ^=", o164, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec3.value_ptr[0] =", o165, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec3.y =", o166, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec3.[1] =", o167, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec3.[1] ^=", o168, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec3.value_ptr[1] =", o169, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec3.z =", o170, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
  {"bvec3.[2] =", o171, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
  {"bvec3.[2] ^=", o172, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
  {"bvec3.value_ptr[2] =", o173, T_VOID, 2, {{T_BVEC3, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
  {"value_ptr(const bvec3)", o174, T_BVEC3, 1, {{T_BVEC3, 1, D_ANY, 0}}, -1, 0},
  {"bvec4.x =", o175, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec4.[0] =", o176, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec4.[0] ^=", o177, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec4.value_ptr[0] =", o178, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 0, 1},
  {"bvec4.y =", o179, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec4.[1] =", o180, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec4.[1] ^=", o181, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec4.value_ptr[1] =", o182, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 1, 1},
  {"bvec4.z =", o183, T_VOID, 2, {{T_BVEC4, 2, D_ANY, 0}, {T_BOOL, 0, D_ANY, 0}}, 2, 1},
};
extern const unsigned zcm_nops_10 = 184;
