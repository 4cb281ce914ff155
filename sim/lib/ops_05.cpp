// generated by tools/genops.py from the public headers; do not edit
#include <stddef.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/fwd.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

#include <new>
#include <functional>
#include "ops.hpp"
#define R(T, ...) new (r) CT_##T(__VA_ARGS__)
typedef float CT_FLOAT;
typedef int32_t CT_INT;
typedef unsigned CT_UINT;
typedef bool CT_BOOL;
typedef size_t CT_U64;
typedef zcm::vec2 CT_VEC2;
typedef zcm::vec3 CT_VEC3;
typedef zcm::vec4 CT_VEC4;
typedef zcm::ivec2 CT_IVEC2;
typedef zcm::ivec3 CT_IVEC3;
typedef zcm::ivec4 CT_IVEC4;
typedef zcm::bvec2 CT_BVEC2;
typedef zcm::bvec3 CT_BVEC3;
typedef zcm::bvec4 CT_BVEC4;
typedef zcm::mat2 CT_MAT2;
typedef zcm::mat3 CT_MAT3;
typedef zcm::mat4 CT_MAT4;
typedef zcm::quat CT_QUAT;
namespace {
void o0(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) + (*(const zcm::ivec2*)a[1])); }
void o1(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) - (*(const zcm::ivec2*)a[1])); }
void o2(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) * (*(const zcm::ivec2*)a[1])); }
void o3(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) / (*(const zcm::ivec2*)a[1])); }
void o4(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) % (*(const zcm::ivec2*)a[1])); }
void o5(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) & (*(const zcm::ivec2*)a[1])); }
void o6(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) | (*(const zcm::ivec2*)a[1])); }
void o7(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) ^ (*(const zcm::ivec2*)a[1])); }
void o8(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) << (*(const zcm::ivec2*)a[1])); }
void o9(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, (*(const int32_t*)a[0]) >> (*(const zcm::ivec2*)a[1])); }
void o10(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3()); }
void o11(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3(*(const int32_t*)a[0])); }
void o12(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3(*(const int32_t*)a[0], *(const int32_t*)a[1], *(const int32_t*)a[2])); }
void o13(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3(*(const zcm::ivec2*)a[0], *(const int32_t*)a[1])); }
void o14(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3(*(const int32_t*)a[0], *(const zcm::ivec2*)a[1])); }
void o15(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec3*)a[0])[*(const unsigned*)a[1]]); }
void o16(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0])[*(const unsigned*)a[1]] = *(const int32_t*)a[2]; }
void o17(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec3*)a[0])[*(const unsigned*)a[1]]); }
void o18(void* const* a, void* r) { (void)a; (void)r; R(BVEC3, static_cast<zcm::bvec3>(*(const zcm::ivec3*)a[0])); }
void o19(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, ++(*(zcm::ivec3*)a[0])); }
void o20(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, --(*(zcm::ivec3*)a[0])); }
void o21(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(zcm::ivec3*)a[0])++); }
void o22(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(zcm::ivec3*)a[0])--); }
void o23(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) += *(const zcm::ivec3*)a[1]; }
void o24(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) -= *(const zcm::ivec3*)a[1]; }
void o25(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) *= *(const zcm::ivec3*)a[1]; }
void o26(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) /= *(const zcm::ivec3*)a[1]; }
void o27(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) %= *(const zcm::ivec3*)a[1]; }
void o28(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) |= *(const zcm::ivec3*)a[1]; }
void o29(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) &= *(const zcm::ivec3*)a[1]; }
void o30(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) ^= *(const zcm::ivec3*)a[1]; }
void o31(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) >>= *(const zcm::ivec3*)a[1]; }
void o32(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) <<= *(const zcm::ivec3*)a[1]; }
void o33(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) += *(const int32_t*)a[1]; }
void o34(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) -= *(const int32_t*)a[1]; }
void o35(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) *= *(const int32_t*)a[1]; }
void o36(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) /= *(const int32_t*)a[1]; }
void o37(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) %= *(const int32_t*)a[1]; }
void o38(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) |= *(const int32_t*)a[1]; }
void o39(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) &= *(const int32_t*)a[1]; }
void o40(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) ^= *(const int32_t*)a[1]; }
void o41(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) >>= *(const int32_t*)a[1]; }
void o42(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec3*)a[0]) <<= *(const int32_t*)a[1]; }
void o43(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).xx)); }
void o44(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).yx)); }
void o45(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).zx)); }
void o46(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).xy)); }
void o47(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).yy)); }
void o48(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).zy)); }
void o49(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).xz)); }
void o50(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).yz)); }
void o51(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec3*)a[0]).zz)); }
void o52(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xxx)); }
void o53(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yxx)); }
void o54(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zxx)); }
void o55(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xyx)); }
void o56(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yyx)); }
void o57(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zyx)); }
void o58(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xzx)); }
void o59(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yzx)); }
void o60(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zzx)); }
void o61(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xxy)); }
void o62(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yxy)); }
void o63(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zxy)); }
void o64(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xyy)); }
void o65(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yyy)); }
void o66(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zyy)); }
void o67(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xzy)); }
void o68(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yzy)); }
void o69(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zzy)); }
void o70(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xxz)); }
void o71(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yxz)); }
void o72(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zxz)); }
void o73(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xyz)); }
void o74(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yyz)); }
void o75(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zyz)); }
void o76(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).xzz)); }
void o77(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).yzz)); }
void o78(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec3*)a[0]).zzz)); }
void o79(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::make_ivec3((const int32_t*)a[0])); }
void o80(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec3*)a[0]) == (*(const zcm::ivec3*)a[1])); }
void o81(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec3*)a[0]) != (*(const zcm::ivec3*)a[1])); }
void o82(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec3*)a[0]) < (*(const zcm::ivec3*)a[1])); }
void o83(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec3*)a[0]) <= (*(const zcm::ivec3*)a[1])); }
void o84(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec3*)a[0]) > (*(const zcm::ivec3*)a[1])); }
void o85(void* const* a, void* r) { (void)a; (void)r; R(BOOL, (*(const zcm::ivec3*)a[0]) >= (*(const zcm::ivec3*)a[1])); }
void o86(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, -(*(const zcm::ivec3*)a[0])); }
void o87(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, +(*(const zcm::ivec3*)a[0])); }
void o88(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) + (*(const zcm::ivec3*)a[1])); }
void o89(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) - (*(const zcm::ivec3*)a[1])); }
void o90(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) * (*(const zcm::ivec3*)a[1])); }
void o91(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) / (*(const zcm::ivec3*)a[1])); }
void o92(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) % (*(const zcm::ivec3*)a[1])); }
void o93(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) & (*(const zcm::ivec3*)a[1])); }
void o94(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) | (*(const zcm::ivec3*)a[1])); }
void o95(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) ^ (*(const zcm::ivec3*)a[1])); }
void o96(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) << (*(const zcm::ivec3*)a[1])); }
void o97(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) >> (*(const zcm::ivec3*)a[1])); }
void o98(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) + (*(const int32_t*)a[1])); }
void o99(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) - (*(const int32_t*)a[1])); }
void o100(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) * (*(const int32_t*)a[1])); }
void o101(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) / (*(const int32_t*)a[1])); }
void o102(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) % (*(const int32_t*)a[1])); }
void o103(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) & (*(const int32_t*)a[1])); }
void o104(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) | (*(const int32_t*)a[1])); }
void o105(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) ^ (*(const int32_t*)a[1])); }
void o106(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) << (*(const int32_t*)a[1])); }
void o107(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const zcm::ivec3*)a[0]) >> (*(const int32_t*)a[1])); }
void o108(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) + (*(const zcm::ivec3*)a[1])); }
void o109(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) - (*(const zcm::ivec3*)a[1])); }
void o110(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) * (*(const zcm::ivec3*)a[1])); }
void o111(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) / (*(const zcm::ivec3*)a[1])); }
void o112(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) % (*(const zcm::ivec3*)a[1])); }
void o113(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) & (*(const zcm::ivec3*)a[1])); }
void o114(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) | (*(const zcm::ivec3*)a[1])); }
void o115(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) ^ (*(const zcm::ivec3*)a[1])); }
void o116(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) << (*(const zcm::ivec3*)a[1])); }
void o117(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, (*(const int32_t*)a[0]) >> (*(const zcm::ivec3*)a[1])); }
void o118(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4()); }
void o119(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const int32_t*)a[0])); }
void o120(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const int32_t*)a[0], *(const int32_t*)a[1], *(const int32_t*)a[2], *(const int32_t*)a[3])); }
void o121(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const zcm::ivec3*)a[0], *(const int32_t*)a[1])); }
void o122(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const int32_t*)a[0], *(const zcm::ivec3*)a[1])); }
void o123(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const zcm::ivec2*)a[0], *(const zcm::ivec2*)a[1])); }
void o124(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const zcm::ivec2*)a[0], *(const int32_t*)a[1], *(const int32_t*)a[2])); }
void o125(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const int32_t*)a[0], *(const zcm::ivec2*)a[1], *(const int32_t*)a[2])); }
void o126(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, zcm::ivec4(*(const int32_t*)a[0], *(const int32_t*)a[1], *(const zcm::ivec2*)a[2])); }
void o127(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(zcm::ivec4*)a[0])[*(const unsigned*)a[1]]); }
void o128(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0])[*(const unsigned*)a[1]] = *(const int32_t*)a[2]; }
void o129(void* const* a, void* r) { (void)a; (void)r; R(INT, (*(const zcm::ivec4*)a[0])[*(const unsigned*)a[1]]); }
void o130(void* const* a, void* r) { (void)a; (void)r; R(BVEC4, static_cast<zcm::bvec4>(*(const zcm::ivec4*)a[0])); }
void o131(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) += *(const zcm::ivec4*)a[1]; }
void o132(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) -= *(const zcm::ivec4*)a[1]; }
void o133(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) *= *(const zcm::ivec4*)a[1]; }
void o134(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) /= *(const zcm::ivec4*)a[1]; }
void o135(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) += *(const int32_t*)a[1]; }
void o136(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) -= *(const int32_t*)a[1]; }
void o137(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) *= *(const int32_t*)a[1]; }
void o138(void* const* a, void* r) { (void)a; (void)r; (*(zcm::ivec4*)a[0]) /= *(const int32_t*)a[1]; }
void o139(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, ++(*(zcm::ivec4*)a[0])); }
void o140(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(zcm::ivec4*)a[0])++); }
void o141(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, --(*(zcm::ivec4*)a[0])); }
void o142(void* const* a, void* r) { (void)a; (void)r; R(IVEC4, (*(zcm::ivec4*)a[0])--); }
void o143(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).xx)); }
void o144(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).yx)); }
void o145(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).zx)); }
void o146(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).wx)); }
void o147(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).xy)); }
void o148(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).yy)); }
void o149(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).zy)); }
void o150(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).wy)); }
void o151(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).xz)); }
void o152(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).yz)); }
void o153(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).zz)); }
void o154(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).wz)); }
void o155(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).xw)); }
void o156(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).yw)); }
void o157(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).zw)); }
void o158(void* const* a, void* r) { (void)a; (void)r; R(IVEC2, zcm::ivec2((*(const zcm::ivec4*)a[0]).ww)); }
void o159(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xxx)); }
void o160(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yxx)); }
void o161(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zxx)); }
void o162(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wxx)); }
void o163(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xyx)); }
void o164(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yyx)); }
void o165(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zyx)); }
void o166(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wyx)); }
void o167(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xzx)); }
void o168(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yzx)); }
void o169(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zzx)); }
void o170(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wzx)); }
void o171(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xwx)); }
void o172(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).ywx)); }
void o173(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zwx)); }
void o174(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wwx)); }
void o175(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xxy)); }
void o176(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yxy)); }
void o177(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zxy)); }
void o178(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wxy)); }
void o179(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xyy)); }
void o180(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).yyy)); }
void o181(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).zyy)); }
void o182(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).wyy)); }
void o183(void* const* a, void* r) { (void)a; (void)r; R(IVEC3, zcm::ivec3((*(const zcm::ivec4*)a[0]).xzy)); }
}
extern const OpDesc zcm_ops_05[] = {
  {"operator+(int,ivec2)", o0, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator-(int,ivec2)", o1, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator*(int,ivec2)", o2, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator/(int,ivec2)", o3, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_NZ, 0}}, -1, 0},
  {"operator%(int,ivec2)", o4, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_NZ, 0}}, -1, 0},
  {"operator&(int,ivec2)", o5, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator|(int,ivec2)", o6, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator^(int,ivec2)", o7, T_IVEC2, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"operator<<(int,ivec2)", o8, T_IVEC2, 2, {{T_INT, 0, D_NNEG, 0}, {T_IVEC2, 0, D_SHIFT, 0}}, -1, 0},
  {"operator>>(int,ivec2)", o9, T_IVEC2, 2, {{T_INT, 0, D_NNEG, 0}, {T_IVEC2, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec3::ivec3()", o10, T_IVEC3, 0, {}, -1, 0},
  {"ivec3::ivec3(int)", o11, T_IVEC3, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::ivec3(int,int,int)", o12, T_IVEC3, 3, {{T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::ivec3(ivec2,int)", o13, T_IVEC3, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::ivec3(int,ivec2)", o14, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator[] read", o15, T_INT, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"ivec3::operator[] write", o16, T_VOID, 3, {{T_IVEC3, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"const ivec3::operator[]", o17, T_INT, 2, {{T_IVEC3, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 3}}, -1, 0},
  {"ivec3::operator bvec3", o18, T_BVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3::operator++()", o19, T_IVEC3, 1, {{T_IVEC3, 2, D_ANY, 0}}, -1, 0},
  {"ivec3::operator--()", o20, T_IVEC3, 1, {{T_IVEC3, 2, D_ANY, 0}}, -1, 0},
  {"ivec3::operator++(int)", o21, T_IVEC3, 1, {{T_IVEC3, 2, D_ANY, 0}}, -1, 0},
  {"ivec3::operator--(int)", o22, T_IVEC3, 1, {{T_IVEC3, 2, D_ANY, 0}}, -1, 0},
  {"ivec3::operator+=(ivec3)", o23, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator-=(ivec3)", o24, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator*=(ivec3)", o25, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator/=(ivec3)", o26, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_NZ, 0}}, -1, 0},
  {"ivec3::operator%=(ivec3)", o27, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_NZ, 0}}, -1, 0},
  {"ivec3::operator|=(ivec3)", o28, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator&=(ivec3)", o29, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator^=(ivec3)", o30, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator>>=(ivec3)", o31, T_VOID, 2, {{T_IVEC3, 2, D_NNEG, 0}, {T_IVEC3, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec3::operator<<=(ivec3)", o32, T_VOID, 2, {{T_IVEC3, 2, D_NNEG, 0}, {T_IVEC3, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec3::operator+=(int)", o33, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator-=(int)", o34, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator*=(int)", o35, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator/=(int)", o36, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"ivec3::operator%=(int)", o37, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"ivec3::operator|=(int)", o38, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator&=(int)", o39, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator^=(int)", o40, T_VOID, 2, {{T_IVEC3, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec3::operator>>=(int)", o41, T_VOID, 2, {{T_IVEC3, 2, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec3::operator<<=(int)", o42, T_VOID, 2, {{T_IVEC3, 2, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec3.xx", o43, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yx", o44, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zx", o45, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xy", o46, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yy", o47, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zy", o48, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xz", o49, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yz", o50, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zz", o51, T_IVEC2, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xxx", o52, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yxx", o53, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zxx", o54, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xyx", o55, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yyx", o56, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zyx", o57, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xzx", o58, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yzx", o59, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zzx", o60, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xxy", o61, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yxy", o62, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zxy", o63, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xyy", o64, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yyy", o65, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zyy", o66, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xzy", o67, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yzy", o68, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zzy", o69, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xxz", o70, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yxz", o71, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zxz", o72, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xyz", o73, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yyz", o74, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zyz", o75, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.xzz", o76, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.yzz", o77, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"ivec3.zzz", o78, T_IVEC3, 1, {{T_IVEC3, 1, D_ANY, 0}}, -1, 0},
  {"make_ivec3(intptr)", o79, T_IVEC3, 1, {{T_INT, 1, D_ARR, 3}}, -1, 0},
  {"operator==(ivec3,ivec3)", o80, T_BOOL, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator!=(ivec3,ivec3)", o81, T_BOOL, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator<(ivec3,ivec3)", o82, T_BOOL, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator<=(ivec3,ivec3)", o83, T_BOOL, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator>(ivec3,ivec3)", o84, T_BOOL, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator>=(ivec3,ivec3)", o85, T_BOOL, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec3)", o86, T_IVEC3, 1, {{T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator+(ivec3)", o87, T_IVEC3, 1, {{T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator+(ivec3,ivec3)", o88, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec3,ivec3)", o89, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator*(ivec3,ivec3)", o90, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator/(ivec3,ivec3)", o91, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_NZ, 0}}, -1, 0},
  {"operator%(ivec3,ivec3)", o92, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_NZ, 0}}, -1, 0},
  {"operator&(ivec3,ivec3)", o93, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator|(ivec3,ivec3)", o94, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator^(ivec3,ivec3)", o95, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator<<(ivec3,ivec3)", o96, T_IVEC3, 2, {{T_IVEC3, 0, D_NNEG, 0}, {T_IVEC3, 0, D_SHIFT, 0}}, -1, 0},
  {"operator>>(ivec3,ivec3)", o97, T_IVEC3, 2, {{T_IVEC3, 0, D_NNEG, 0}, {T_IVEC3, 0, D_SHIFT, 0}}, -1, 0},
  {"operator+(ivec3,int)", o98, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator-(ivec3,int)", o99, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator*(ivec3,int)", o100, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator/(ivec3,int)", o101, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"operator%(ivec3,int)", o102, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"operator&(ivec3,int)", o103, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator|(ivec3,int)", o104, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator^(ivec3,int)", o105, T_IVEC3, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"operator<<(ivec3,int)", o106, T_IVEC3, 2, {{T_IVEC3, 0, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
  {"operator>>(ivec3,int)", o107, T_IVEC3, 2, {{T_IVEC3, 0, D_NNEG, 0}, {T_INT, 0, D_SHIFT, 0}}, -1, 0},
  {"operator+(int,ivec3)", o108, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator-(int,ivec3)", o109, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator*(int,ivec3)", o110, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator/(int,ivec3)", o111, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_NZ, 0}}, -1, 0},
  {"operator%(int,ivec3)", o112, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_NZ, 0}}, -1, 0},
  {"operator&(int,ivec3)", o113, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator|(int,ivec3)", o114, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator^(int,ivec3)", o115, T_IVEC3, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"operator<<(int,ivec3)", o116, T_IVEC3, 2, {{T_INT, 0, D_NNEG, 0}, {T_IVEC3, 0, D_SHIFT, 0}}, -1, 0},
  {"operator>>(int,ivec3)", o117, T_IVEC3, 2, {{T_INT, 0, D_NNEG, 0}, {T_IVEC3, 0, D_SHIFT, 0}}, -1, 0},
  {"ivec4::ivec4()", o118, T_IVEC4, 0, {}, -1, 0},
  {"ivec4::ivec4(int)", o119, T_IVEC4, 1, {{T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::ivec4(int,int,int,int)", o120, T_IVEC4, 4, {{T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::ivec4(ivec3,int)", o121, T_IVEC4, 2, {{T_IVEC3, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::ivec4(int,ivec3)", o122, T_IVEC4, 2, {{T_INT, 0, D_ANY, 0}, {T_IVEC3, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::ivec4(ivec2,ivec2)", o123, T_IVEC4, 2, {{T_IVEC2, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::ivec4(ivec2,int,int)", o124, T_IVEC4, 3, {{T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::ivec4(int,ivec2,int)", o125, T_IVEC4, 3, {{T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::ivec4(int,int,ivec2)", o126, T_IVEC4, 3, {{T_INT, 0, D_ANY, 0}, {T_INT, 0, D_ANY, 0}, {T_IVEC2, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::operator[] read", o127, T_INT, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"ivec4::operator[] write", o128, T_VOID, 3, {{T_IVEC4, 2, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"const ivec4::operator[]", o129, T_INT, 2, {{T_IVEC4, 1, D_ANY, 0}, {T_UINT, 0, D_IDX, 4}}, -1, 0},
  {"ivec4::operator bvec4", o130, T_BVEC4, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4::operator+=(ivec4)", o131, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::operator-=(ivec4)", o132, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::operator*=(ivec4)", o133, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_IVEC4, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::operator/=(ivec4)", o134, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_IVEC4, 0, D_NZ, 0}}, -1, 0},
  {"ivec4::operator+=(int)", o135, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::operator-=(int)", o136, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::operator*=(int)", o137, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_ANY, 0}}, -1, 0},
  {"ivec4::operator/=(int)", o138, T_VOID, 2, {{T_IVEC4, 2, D_ANY, 0}, {T_INT, 0, D_NZ, 0}}, -1, 0},
  {"ivec4::operator++()", o139, T_IVEC4, 1, {{T_IVEC4, 2, D_ANY, 0}}, -1, 0},
  {"ivec4::operator++(int)", o140, T_IVEC4, 1, {{T_IVEC4, 2, D_ANY, 0}}, -1, 0},
  {"ivec4::operator--()", o141, T_IVEC4, 1, {{T_IVEC4, 2, D_ANY, 0}}, -1, 0},
  {"ivec4::operator--(int)", o142, T_IVEC4, 1, {{T_IVEC4, 2, D_ANY, 0}}, -1, 0},
  {"ivec4.xx", o143, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yx", o144, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zx", o145, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wx", o146, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xy", o147, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yy", o148, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zy", o149, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wy", o150, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xz", o151, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yz", o152, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zz", o153, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wz", o154, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xw", o155, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yw", o156, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zw", o157, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ww", o158, T_IVEC2, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxx", o159, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxx", o160, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxx", o161, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxx", o162, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyx", o163, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyx", o164, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyx", o165, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyx", o166, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzx", o167, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yzx", o168, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zzx", o169, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wzx", o170, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xwx", o171, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.ywx", o172, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zwx", o173, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wwx", o174, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xxy", o175, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yxy", o176, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zxy", o177, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wxy", o178, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xyy", o179, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.yyy", o180, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.zyy", o181, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.wyy", o182, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
  {"ivec4.xzy", o183, T_IVEC3, 1, {{T_IVEC4, 1, D_ANY, 0}}, -1, 0},
};
extern const unsigned zcm_nops_05 = 184;
