// generated by tools/gen_swz.py: what each swizzle name spells
#pragma once
#include <cstddef>
struct S_x { template<class V> static constexpr auto& get(V&v) noexcept { return v.x; } static constexpr std::size_t p[1]={0}; static constexpr std::size_t n=1, need=1; static constexpr bool w=true; };
struct S_y { template<class V> static constexpr auto& get(V&v) noexcept { return v.y; } static constexpr std::size_t p[1]={1}; static constexpr std::size_t n=1, need=2; static constexpr bool w=true; };
struct S_z { template<class V> static constexpr auto& get(V&v) noexcept { return v.z; } static constexpr std::size_t p[1]={2}; static constexpr std::size_t n=1, need=3; static constexpr bool w=true; };
struct S_w { template<class V> static constexpr auto& get(V&v) noexcept { return v.w; } static constexpr std::size_t p[1]={3}; static constexpr std::size_t n=1, need=4; static constexpr bool w=true; };
struct S_xx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xx; } static constexpr std::size_t p[2]={0,0}; static constexpr std::size_t n=2, need=1; static constexpr bool w=false; };
struct S_xy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xy; } static constexpr std::size_t p[2]={0,1}; static constexpr std::size_t n=2, need=2; static constexpr bool w=true; };
struct S_xz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xz; } static constexpr std::size_t p[2]={0,2}; static constexpr std::size_t n=2, need=3; static constexpr bool w=true; };
struct S_xw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xw; } static constexpr std::size_t p[2]={0,3}; static constexpr std::size_t n=2, need=4; static constexpr bool w=true; };
struct S_yx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yx; } static constexpr std::size_t p[2]={1,0}; static constexpr std::size_t n=2, need=2; static constexpr bool w=true; };
struct S_yy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yy; } static constexpr std::size_t p[2]={1,1}; static constexpr std::size_t n=2, need=2; static constexpr bool w=false; };
struct S_yz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yz; } static constexpr std::size_t p[2]={1,2}; static constexpr std::size_t n=2, need=3; static constexpr bool w=true; };
struct S_yw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yw; } static constexpr std::size_t p[2]={1,3}; static constexpr std::size_t n=2, need=4; static constexpr bool w=true; };
struct S_zx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zx; } static constexpr std::size_t p[2]={2,0}; static constexpr std::size_t n=2, need=3; static constexpr bool w=true; };
struct S_zy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zy; } static constexpr std::size_t p[2]={2,1}; static constexpr std::size_t n=2, need=3; static constexpr bool w=true; };
struct S_zz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zz; } static constexpr std::size_t p[2]={2,2}; static constexpr std::size_t n=2, need=3; static constexpr bool w=false; };
struct S_zw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zw; } static constexpr std::size_t p[2]={2,3}; static constexpr std::size_t n=2, need=4; static constexpr bool w=true; };
struct S_wx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wx; } static constexpr std::size_t p[2]={3,0}; static constexpr std::size_t n=2, need=4; static constexpr bool w=true; };
struct S_wy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wy; } static constexpr std::size_t p[2]={3,1}; static constexpr std::size_t n=2, need=4; static constexpr bool w=true; };
struct S_wz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wz; } static constexpr std::size_t p[2]={3,2}; static constexpr std::size_t n=2, need=4; static constexpr bool w=true; };
struct S_ww { template<class V> static constexpr auto& get(V&v) noexcept { return v.ww; } static constexpr std::size_t p[2]={3,3}; static constexpr std::size_t n=2, need=4; static constexpr bool w=false; };
struct S_xxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxx; } static constexpr std::size_t p[3]={0,0,0}; static constexpr std::size_t n=3, need=1; static constexpr bool w=false; };
struct S_xxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxy; } static constexpr std::size_t p[3]={0,0,1}; static constexpr std::size_t n=3, need=2; static constexpr bool w=false; };
struct S_xxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxz; } static constexpr std::size_t p[3]={0,0,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_xxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxw; } static constexpr std::size_t p[3]={0,0,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_xyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyx; } static constexpr std::size_t p[3]={0,1,0}; static constexpr std::size_t n=3, need=2; static constexpr bool w=false; };
struct S_xyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyy; } static constexpr std::size_t p[3]={0,1,1}; static constexpr std::size_t n=3, need=2; static constexpr bool w=false; };
struct S_xyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyz; } static constexpr std::size_t p[3]={0,1,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=true; };
struct S_xyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyw; } static constexpr std::size_t p[3]={0,1,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_xzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzx; } static constexpr std::size_t p[3]={0,2,0}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_xzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzy; } static constexpr std::size_t p[3]={0,2,1}; static constexpr std::size_t n=3, need=3; static constexpr bool w=true; };
struct S_xzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzz; } static constexpr std::size_t p[3]={0,2,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_xzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzw; } static constexpr std::size_t p[3]={0,2,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_xwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwx; } static constexpr std::size_t p[3]={0,3,0}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_xwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwy; } static constexpr std::size_t p[3]={0,3,1}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_xwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwz; } static constexpr std::size_t p[3]={0,3,2}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_xww { template<class V> static constexpr auto& get(V&v) noexcept { return v.xww; } static constexpr std::size_t p[3]={0,3,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_yxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxx; } static constexpr std::size_t p[3]={1,0,0}; static constexpr std::size_t n=3, need=2; static constexpr bool w=false; };
struct S_yxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxy; } static constexpr std::size_t p[3]={1,0,1}; static constexpr std::size_t n=3, need=2; static constexpr bool w=false; };
struct S_yxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxz; } static constexpr std::size_t p[3]={1,0,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=true; };
struct S_yxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxw; } static constexpr std::size_t p[3]={1,0,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_yyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyx; } static constexpr std::size_t p[3]={1,1,0}; static constexpr std::size_t n=3, need=2; static constexpr bool w=false; };
struct S_yyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyy; } static constexpr std::size_t p[3]={1,1,1}; static constexpr std::size_t n=3, need=2; static constexpr bool w=false; };
struct S_yyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyz; } static constexpr std::size_t p[3]={1,1,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_yyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyw; } static constexpr std::size_t p[3]={1,1,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_yzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzx; } static constexpr std::size_t p[3]={1,2,0}; static constexpr std::size_t n=3, need=3; static constexpr bool w=true; };
struct S_yzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzy; } static constexpr std::size_t p[3]={1,2,1}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_yzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzz; } static constexpr std::size_t p[3]={1,2,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_yzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzw; } static constexpr std::size_t p[3]={1,2,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_ywx { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywx; } static constexpr std::size_t p[3]={1,3,0}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_ywy { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywy; } static constexpr std::size_t p[3]={1,3,1}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_ywz { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywz; } static constexpr std::size_t p[3]={1,3,2}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_yww { template<class V> static constexpr auto& get(V&v) noexcept { return v.yww; } static constexpr std::size_t p[3]={1,3,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_zxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxx; } static constexpr std::size_t p[3]={2,0,0}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_zxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxy; } static constexpr std::size_t p[3]={2,0,1}; static constexpr std::size_t n=3, need=3; static constexpr bool w=true; };
struct S_zxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxz; } static constexpr std::size_t p[3]={2,0,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_zxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxw; } static constexpr std::size_t p[3]={2,0,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_zyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyx; } static constexpr std::size_t p[3]={2,1,0}; static constexpr std::size_t n=3, need=3; static constexpr bool w=true; };
struct S_zyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyy; } static constexpr std::size_t p[3]={2,1,1}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_zyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyz; } static constexpr std::size_t p[3]={2,1,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_zyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyw; } static constexpr std::size_t p[3]={2,1,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_zzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzx; } static constexpr std::size_t p[3]={2,2,0}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_zzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzy; } static constexpr std::size_t p[3]={2,2,1}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_zzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzz; } static constexpr std::size_t p[3]={2,2,2}; static constexpr std::size_t n=3, need=3; static constexpr bool w=false; };
struct S_zzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzw; } static constexpr std::size_t p[3]={2,2,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_zwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwx; } static constexpr std::size_t p[3]={2,3,0}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_zwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwy; } static constexpr std::size_t p[3]={2,3,1}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_zwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwz; } static constexpr std::size_t p[3]={2,3,2}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_zww { template<class V> static constexpr auto& get(V&v) noexcept { return v.zww; } static constexpr std::size_t p[3]={2,3,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxx; } static constexpr std::size_t p[3]={3,0,0}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxy; } static constexpr std::size_t p[3]={3,0,1}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_wxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxz; } static constexpr std::size_t p[3]={3,0,2}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_wxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxw; } static constexpr std::size_t p[3]={3,0,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyx; } static constexpr std::size_t p[3]={3,1,0}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_wyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyy; } static constexpr std::size_t p[3]={3,1,1}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyz; } static constexpr std::size_t p[3]={3,1,2}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_wyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyw; } static constexpr std::size_t p[3]={3,1,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzx; } static constexpr std::size_t p[3]={3,2,0}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_wzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzy; } static constexpr std::size_t p[3]={3,2,1}; static constexpr std::size_t n=3, need=4; static constexpr bool w=true; };
struct S_wzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzz; } static constexpr std::size_t p[3]={3,2,2}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzw; } static constexpr std::size_t p[3]={3,2,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwx; } static constexpr std::size_t p[3]={3,3,0}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwy; } static constexpr std::size_t p[3]={3,3,1}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_wwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwz; } static constexpr std::size_t p[3]={3,3,2}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_www { template<class V> static constexpr auto& get(V&v) noexcept { return v.www; } static constexpr std::size_t p[3]={3,3,3}; static constexpr std::size_t n=3, need=4; static constexpr bool w=false; };
struct S_xxxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxxx; } static constexpr std::size_t p[4]={0,0,0,0}; static constexpr std::size_t n=4, need=1; static constexpr bool w=false; };
struct S_xxxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxxy; } static constexpr std::size_t p[4]={0,0,0,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_xxxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxxz; } static constexpr std::size_t p[4]={0,0,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xxxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxxw; } static constexpr std::size_t p[4]={0,0,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xxyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxyx; } static constexpr std::size_t p[4]={0,0,1,0}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_xxyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxyy; } static constexpr std::size_t p[4]={0,0,1,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_xxyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxyz; } static constexpr std::size_t p[4]={0,0,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xxyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxyw; } static constexpr std::size_t p[4]={0,0,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xxzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxzx; } static constexpr std::size_t p[4]={0,0,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xxzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxzy; } static constexpr std::size_t p[4]={0,0,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xxzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxzz; } static constexpr std::size_t p[4]={0,0,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xxzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxzw; } static constexpr std::size_t p[4]={0,0,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xxwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxwx; } static constexpr std::size_t p[4]={0,0,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xxwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxwy; } static constexpr std::size_t p[4]={0,0,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xxwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxwz; } static constexpr std::size_t p[4]={0,0,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xxww { template<class V> static constexpr auto& get(V&v) noexcept { return v.xxww; } static constexpr std::size_t p[4]={0,0,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xyxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyxx; } static constexpr std::size_t p[4]={0,1,0,0}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_xyxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyxy; } static constexpr std::size_t p[4]={0,1,0,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_xyxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyxz; } static constexpr std::size_t p[4]={0,1,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xyxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyxw; } static constexpr std::size_t p[4]={0,1,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xyyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyyx; } static constexpr std::size_t p[4]={0,1,1,0}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_xyyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyyy; } static constexpr std::size_t p[4]={0,1,1,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_xyyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyyz; } static constexpr std::size_t p[4]={0,1,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xyyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyyw; } static constexpr std::size_t p[4]={0,1,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xyzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyzx; } static constexpr std::size_t p[4]={0,1,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xyzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyzy; } static constexpr std::size_t p[4]={0,1,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xyzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyzz; } static constexpr std::size_t p[4]={0,1,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xyzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyzw; } static constexpr std::size_t p[4]={0,1,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_xywx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xywx; } static constexpr std::size_t p[4]={0,1,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xywy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xywy; } static constexpr std::size_t p[4]={0,1,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xywz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xywz; } static constexpr std::size_t p[4]={0,1,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_xyww { template<class V> static constexpr auto& get(V&v) noexcept { return v.xyww; } static constexpr std::size_t p[4]={0,1,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xzxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzxx; } static constexpr std::size_t p[4]={0,2,0,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzxy; } static constexpr std::size_t p[4]={0,2,0,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzxz; } static constexpr std::size_t p[4]={0,2,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzxw; } static constexpr std::size_t p[4]={0,2,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xzyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzyx; } static constexpr std::size_t p[4]={0,2,1,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzyy; } static constexpr std::size_t p[4]={0,2,1,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzyz; } static constexpr std::size_t p[4]={0,2,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzyw; } static constexpr std::size_t p[4]={0,2,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_xzzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzzx; } static constexpr std::size_t p[4]={0,2,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzzy; } static constexpr std::size_t p[4]={0,2,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzzz; } static constexpr std::size_t p[4]={0,2,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_xzzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzzw; } static constexpr std::size_t p[4]={0,2,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xzwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzwx; } static constexpr std::size_t p[4]={0,2,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xzwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzwy; } static constexpr std::size_t p[4]={0,2,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_xzwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzwz; } static constexpr std::size_t p[4]={0,2,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xzww { template<class V> static constexpr auto& get(V&v) noexcept { return v.xzww; } static constexpr std::size_t p[4]={0,2,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwxx; } static constexpr std::size_t p[4]={0,3,0,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwxy; } static constexpr std::size_t p[4]={0,3,0,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwxz; } static constexpr std::size_t p[4]={0,3,0,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwxw; } static constexpr std::size_t p[4]={0,3,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwyx; } static constexpr std::size_t p[4]={0,3,1,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwyy; } static constexpr std::size_t p[4]={0,3,1,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwyz; } static constexpr std::size_t p[4]={0,3,1,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_xwyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwyw; } static constexpr std::size_t p[4]={0,3,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwzx; } static constexpr std::size_t p[4]={0,3,2,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwzy; } static constexpr std::size_t p[4]={0,3,2,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_xwzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwzz; } static constexpr std::size_t p[4]={0,3,2,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwzw; } static constexpr std::size_t p[4]={0,3,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwwx; } static constexpr std::size_t p[4]={0,3,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwwy; } static constexpr std::size_t p[4]={0,3,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwwz; } static constexpr std::size_t p[4]={0,3,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_xwww { template<class V> static constexpr auto& get(V&v) noexcept { return v.xwww; } static constexpr std::size_t p[4]={0,3,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yxxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxxx; } static constexpr std::size_t p[4]={1,0,0,0}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yxxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxxy; } static constexpr std::size_t p[4]={1,0,0,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yxxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxxz; } static constexpr std::size_t p[4]={1,0,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yxxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxxw; } static constexpr std::size_t p[4]={1,0,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yxyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxyx; } static constexpr std::size_t p[4]={1,0,1,0}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yxyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxyy; } static constexpr std::size_t p[4]={1,0,1,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yxyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxyz; } static constexpr std::size_t p[4]={1,0,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yxyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxyw; } static constexpr std::size_t p[4]={1,0,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yxzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxzx; } static constexpr std::size_t p[4]={1,0,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yxzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxzy; } static constexpr std::size_t p[4]={1,0,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yxzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxzz; } static constexpr std::size_t p[4]={1,0,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yxzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxzw; } static constexpr std::size_t p[4]={1,0,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_yxwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxwx; } static constexpr std::size_t p[4]={1,0,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yxwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxwy; } static constexpr std::size_t p[4]={1,0,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yxwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxwz; } static constexpr std::size_t p[4]={1,0,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_yxww { template<class V> static constexpr auto& get(V&v) noexcept { return v.yxww; } static constexpr std::size_t p[4]={1,0,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yyxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyxx; } static constexpr std::size_t p[4]={1,1,0,0}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yyxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyxy; } static constexpr std::size_t p[4]={1,1,0,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yyxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyxz; } static constexpr std::size_t p[4]={1,1,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yyxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyxw; } static constexpr std::size_t p[4]={1,1,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yyyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyyx; } static constexpr std::size_t p[4]={1,1,1,0}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yyyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyyy; } static constexpr std::size_t p[4]={1,1,1,1}; static constexpr std::size_t n=4, need=2; static constexpr bool w=false; };
struct S_yyyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyyz; } static constexpr std::size_t p[4]={1,1,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yyyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyyw; } static constexpr std::size_t p[4]={1,1,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yyzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyzx; } static constexpr std::size_t p[4]={1,1,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yyzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyzy; } static constexpr std::size_t p[4]={1,1,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yyzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyzz; } static constexpr std::size_t p[4]={1,1,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yyzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyzw; } static constexpr std::size_t p[4]={1,1,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yywx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yywx; } static constexpr std::size_t p[4]={1,1,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yywy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yywy; } static constexpr std::size_t p[4]={1,1,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yywz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yywz; } static constexpr std::size_t p[4]={1,1,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yyww { template<class V> static constexpr auto& get(V&v) noexcept { return v.yyww; } static constexpr std::size_t p[4]={1,1,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yzxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzxx; } static constexpr std::size_t p[4]={1,2,0,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzxy; } static constexpr std::size_t p[4]={1,2,0,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzxz; } static constexpr std::size_t p[4]={1,2,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzxw; } static constexpr std::size_t p[4]={1,2,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_yzyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzyx; } static constexpr std::size_t p[4]={1,2,1,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzyy; } static constexpr std::size_t p[4]={1,2,1,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzyz; } static constexpr std::size_t p[4]={1,2,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzyw; } static constexpr std::size_t p[4]={1,2,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yzzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzzx; } static constexpr std::size_t p[4]={1,2,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzzy; } static constexpr std::size_t p[4]={1,2,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzzz; } static constexpr std::size_t p[4]={1,2,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_yzzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzzw; } static constexpr std::size_t p[4]={1,2,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yzwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzwx; } static constexpr std::size_t p[4]={1,2,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_yzwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzwy; } static constexpr std::size_t p[4]={1,2,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yzwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzwz; } static constexpr std::size_t p[4]={1,2,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_yzww { template<class V> static constexpr auto& get(V&v) noexcept { return v.yzww; } static constexpr std::size_t p[4]={1,2,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywxx; } static constexpr std::size_t p[4]={1,3,0,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywxy; } static constexpr std::size_t p[4]={1,3,0,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywxz; } static constexpr std::size_t p[4]={1,3,0,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_ywxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywxw; } static constexpr std::size_t p[4]={1,3,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywyx; } static constexpr std::size_t p[4]={1,3,1,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywyy; } static constexpr std::size_t p[4]={1,3,1,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywyz; } static constexpr std::size_t p[4]={1,3,1,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywyw; } static constexpr std::size_t p[4]={1,3,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywzx; } static constexpr std::size_t p[4]={1,3,2,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_ywzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywzy; } static constexpr std::size_t p[4]={1,3,2,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywzz; } static constexpr std::size_t p[4]={1,3,2,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywzw; } static constexpr std::size_t p[4]={1,3,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywwx; } static constexpr std::size_t p[4]={1,3,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywwy; } static constexpr std::size_t p[4]={1,3,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywwz; } static constexpr std::size_t p[4]={1,3,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_ywww { template<class V> static constexpr auto& get(V&v) noexcept { return v.ywww; } static constexpr std::size_t p[4]={1,3,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zxxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxxx; } static constexpr std::size_t p[4]={2,0,0,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxxy; } static constexpr std::size_t p[4]={2,0,0,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxxz; } static constexpr std::size_t p[4]={2,0,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxxw; } static constexpr std::size_t p[4]={2,0,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zxyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxyx; } static constexpr std::size_t p[4]={2,0,1,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxyy; } static constexpr std::size_t p[4]={2,0,1,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxyz; } static constexpr std::size_t p[4]={2,0,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxyw; } static constexpr std::size_t p[4]={2,0,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_zxzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxzx; } static constexpr std::size_t p[4]={2,0,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxzy; } static constexpr std::size_t p[4]={2,0,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxzz; } static constexpr std::size_t p[4]={2,0,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zxzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxzw; } static constexpr std::size_t p[4]={2,0,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zxwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxwx; } static constexpr std::size_t p[4]={2,0,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zxwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxwy; } static constexpr std::size_t p[4]={2,0,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_zxwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxwz; } static constexpr std::size_t p[4]={2,0,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zxww { template<class V> static constexpr auto& get(V&v) noexcept { return v.zxww; } static constexpr std::size_t p[4]={2,0,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zyxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyxx; } static constexpr std::size_t p[4]={2,1,0,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyxy; } static constexpr std::size_t p[4]={2,1,0,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyxz; } static constexpr std::size_t p[4]={2,1,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyxw; } static constexpr std::size_t p[4]={2,1,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_zyyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyyx; } static constexpr std::size_t p[4]={2,1,1,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyyy; } static constexpr std::size_t p[4]={2,1,1,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyyz; } static constexpr std::size_t p[4]={2,1,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyyw; } static constexpr std::size_t p[4]={2,1,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zyzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyzx; } static constexpr std::size_t p[4]={2,1,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyzy; } static constexpr std::size_t p[4]={2,1,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyzz; } static constexpr std::size_t p[4]={2,1,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zyzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyzw; } static constexpr std::size_t p[4]={2,1,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zywx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zywx; } static constexpr std::size_t p[4]={2,1,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_zywy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zywy; } static constexpr std::size_t p[4]={2,1,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zywz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zywz; } static constexpr std::size_t p[4]={2,1,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zyww { template<class V> static constexpr auto& get(V&v) noexcept { return v.zyww; } static constexpr std::size_t p[4]={2,1,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zzxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzxx; } static constexpr std::size_t p[4]={2,2,0,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzxy; } static constexpr std::size_t p[4]={2,2,0,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzxz; } static constexpr std::size_t p[4]={2,2,0,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzxw; } static constexpr std::size_t p[4]={2,2,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zzyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzyx; } static constexpr std::size_t p[4]={2,2,1,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzyy; } static constexpr std::size_t p[4]={2,2,1,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzyz; } static constexpr std::size_t p[4]={2,2,1,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzyw; } static constexpr std::size_t p[4]={2,2,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zzzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzzx; } static constexpr std::size_t p[4]={2,2,2,0}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzzy; } static constexpr std::size_t p[4]={2,2,2,1}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzzz; } static constexpr std::size_t p[4]={2,2,2,2}; static constexpr std::size_t n=4, need=3; static constexpr bool w=false; };
struct S_zzzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzzw; } static constexpr std::size_t p[4]={2,2,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zzwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzwx; } static constexpr std::size_t p[4]={2,2,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zzwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzwy; } static constexpr std::size_t p[4]={2,2,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zzwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzwz; } static constexpr std::size_t p[4]={2,2,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zzww { template<class V> static constexpr auto& get(V&v) noexcept { return v.zzww; } static constexpr std::size_t p[4]={2,2,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwxx; } static constexpr std::size_t p[4]={2,3,0,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwxy; } static constexpr std::size_t p[4]={2,3,0,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_zwxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwxz; } static constexpr std::size_t p[4]={2,3,0,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwxw; } static constexpr std::size_t p[4]={2,3,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwyx; } static constexpr std::size_t p[4]={2,3,1,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_zwyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwyy; } static constexpr std::size_t p[4]={2,3,1,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwyz; } static constexpr std::size_t p[4]={2,3,1,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwyw; } static constexpr std::size_t p[4]={2,3,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwzx; } static constexpr std::size_t p[4]={2,3,2,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwzy; } static constexpr std::size_t p[4]={2,3,2,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwzz; } static constexpr std::size_t p[4]={2,3,2,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwzw; } static constexpr std::size_t p[4]={2,3,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwwx; } static constexpr std::size_t p[4]={2,3,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwwy; } static constexpr std::size_t p[4]={2,3,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwwz; } static constexpr std::size_t p[4]={2,3,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_zwww { template<class V> static constexpr auto& get(V&v) noexcept { return v.zwww; } static constexpr std::size_t p[4]={2,3,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxxx; } static constexpr std::size_t p[4]={3,0,0,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxxy; } static constexpr std::size_t p[4]={3,0,0,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxxz; } static constexpr std::size_t p[4]={3,0,0,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxxw; } static constexpr std::size_t p[4]={3,0,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxyx; } static constexpr std::size_t p[4]={3,0,1,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxyy; } static constexpr std::size_t p[4]={3,0,1,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxyz; } static constexpr std::size_t p[4]={3,0,1,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_wxyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxyw; } static constexpr std::size_t p[4]={3,0,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxzx; } static constexpr std::size_t p[4]={3,0,2,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxzy; } static constexpr std::size_t p[4]={3,0,2,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_wxzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxzz; } static constexpr std::size_t p[4]={3,0,2,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxzw; } static constexpr std::size_t p[4]={3,0,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxwx; } static constexpr std::size_t p[4]={3,0,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxwy; } static constexpr std::size_t p[4]={3,0,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxwz; } static constexpr std::size_t p[4]={3,0,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wxww { template<class V> static constexpr auto& get(V&v) noexcept { return v.wxww; } static constexpr std::size_t p[4]={3,0,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyxx; } static constexpr std::size_t p[4]={3,1,0,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyxy; } static constexpr std::size_t p[4]={3,1,0,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyxz; } static constexpr std::size_t p[4]={3,1,0,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_wyxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyxw; } static constexpr std::size_t p[4]={3,1,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyyx; } static constexpr std::size_t p[4]={3,1,1,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyyy; } static constexpr std::size_t p[4]={3,1,1,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyyz; } static constexpr std::size_t p[4]={3,1,1,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyyw; } static constexpr std::size_t p[4]={3,1,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyzx; } static constexpr std::size_t p[4]={3,1,2,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_wyzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyzy; } static constexpr std::size_t p[4]={3,1,2,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyzz; } static constexpr std::size_t p[4]={3,1,2,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyzw; } static constexpr std::size_t p[4]={3,1,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wywx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wywx; } static constexpr std::size_t p[4]={3,1,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wywy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wywy; } static constexpr std::size_t p[4]={3,1,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wywz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wywz; } static constexpr std::size_t p[4]={3,1,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wyww { template<class V> static constexpr auto& get(V&v) noexcept { return v.wyww; } static constexpr std::size_t p[4]={3,1,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzxx; } static constexpr std::size_t p[4]={3,2,0,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzxy; } static constexpr std::size_t p[4]={3,2,0,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_wzxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzxz; } static constexpr std::size_t p[4]={3,2,0,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzxw; } static constexpr std::size_t p[4]={3,2,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzyx; } static constexpr std::size_t p[4]={3,2,1,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=true; };
struct S_wzyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzyy; } static constexpr std::size_t p[4]={3,2,1,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzyz; } static constexpr std::size_t p[4]={3,2,1,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzyw; } static constexpr std::size_t p[4]={3,2,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzzx; } static constexpr std::size_t p[4]={3,2,2,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzzy; } static constexpr std::size_t p[4]={3,2,2,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzzz; } static constexpr std::size_t p[4]={3,2,2,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzzw; } static constexpr std::size_t p[4]={3,2,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzwx; } static constexpr std::size_t p[4]={3,2,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzwy; } static constexpr std::size_t p[4]={3,2,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzwz; } static constexpr std::size_t p[4]={3,2,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wzww { template<class V> static constexpr auto& get(V&v) noexcept { return v.wzww; } static constexpr std::size_t p[4]={3,2,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwxx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwxx; } static constexpr std::size_t p[4]={3,3,0,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwxy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwxy; } static constexpr std::size_t p[4]={3,3,0,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwxz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwxz; } static constexpr std::size_t p[4]={3,3,0,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwxw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwxw; } static constexpr std::size_t p[4]={3,3,0,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwyx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwyx; } static constexpr std::size_t p[4]={3,3,1,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwyy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwyy; } static constexpr std::size_t p[4]={3,3,1,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwyz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwyz; } static constexpr std::size_t p[4]={3,3,1,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwyw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwyw; } static constexpr std::size_t p[4]={3,3,1,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwzx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwzx; } static constexpr std::size_t p[4]={3,3,2,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwzy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwzy; } static constexpr std::size_t p[4]={3,3,2,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwzz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwzz; } static constexpr std::size_t p[4]={3,3,2,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwzw { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwzw; } static constexpr std::size_t p[4]={3,3,2,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwwx { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwwx; } static constexpr std::size_t p[4]={3,3,3,0}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwwy { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwwy; } static constexpr std::size_t p[4]={3,3,3,1}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwwz { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwwz; } static constexpr std::size_t p[4]={3,3,3,2}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
struct S_wwww { template<class V> static constexpr auto& get(V&v) noexcept { return v.wwww; } static constexpr std::size_t p[4]={3,3,3,3}; static constexpr std::size_t n=4, need=4; static constexpr bool w=false; };
#define R1_1(M,...) M(__VA_ARGS__,S_x)
#define W1_1(M,...) M(__VA_ARGS__,S_x)
#define N1_1(M,...) 
#define R1_2(M,...) M(__VA_ARGS__,S_xx)
#define W1_2(M,...) 
#define N1_2(M,...) M(__VA_ARGS__,S_xx)
#define R1_3(M,...) M(__VA_ARGS__,S_xxx)
#define W1_3(M,...) 
#define N1_3(M,...) M(__VA_ARGS__,S_xxx)
#define R1_4(M,...) M(__VA_ARGS__,S_xxxx)
#define W1_4(M,...) 
#define N1_4(M,...) M(__VA_ARGS__,S_xxxx)
#define R2_1(M,...) M(__VA_ARGS__,S_x) M(__VA_ARGS__,S_y)
#define W2_1(M,...) M(__VA_ARGS__,S_x) M(__VA_ARGS__,S_y)
#define N2_1(M,...) 
#define R2_2(M,...) M(__VA_ARGS__,S_xx) M(__VA_ARGS__,S_xy) M(__VA_ARGS__,S_yx) M(__VA_ARGS__,S_yy)
#define W2_2(M,...) M(__VA_ARGS__,S_xy) M(__VA_ARGS__,S_yx)
#define N2_2(M,...) M(__VA_ARGS__,S_xx) M(__VA_ARGS__,S_yy)
#define R2_3(M,...) M(__VA_ARGS__,S_xxx) M(__VA_ARGS__,S_xxy) M(__VA_ARGS__,S_xyx) M(__VA_ARGS__,S_xyy) M(__VA_ARGS__,S_yxx) M(__VA_ARGS__,S_yxy) M(__VA_ARGS__,S_yyx) M(__VA_ARGS__,S_yyy)
#define W2_3(M,...) 
#define N2_3(M,...) M(__VA_ARGS__,S_xxx) M(__VA_ARGS__,S_xxy) M(__VA_ARGS__,S_xyx) M(__VA_ARGS__,S_xyy) M(__VA_ARGS__,S_yxx) M(__VA_ARGS__,S_yxy) M(__VA_ARGS__,S_yyx) M(__VA_ARGS__,S_yyy)
#define R2_4(M,...) M(__VA_ARGS__,S_xxxx) M(__VA_ARGS__,S_xxxy) M(__VA_ARGS__,S_xxyx) M(__VA_ARGS__,S_xxyy) M(__VA_ARGS__,S_xyxx) M(__VA_ARGS__,S_xyxy) M(__VA_ARGS__,S_xyyx) M(__VA_ARGS__,S_xyyy) M(__VA_ARGS__,S_yxxx) M(__VA_ARGS__,S_yxxy) M(__VA_ARGS__,S_yxyx) M(__VA_ARGS__,S_yxyy) M(__VA_ARGS__,S_yyxx) M(__VA_ARGS__,S_yyxy) M(__VA_ARGS__,S_yyyx) M(__VA_ARGS__,S_yyyy)
#define W2_4(M,...) 
#define N2_4(M,...) M(__VA_ARGS__,S_xxxx) M(__VA_ARGS__,S_xxxy) M(__VA_ARGS__,S_xxyx) M(__VA_ARGS__,S_xxyy) M(__VA_ARGS__,S_xyxx) M(__VA_ARGS__,S_xyxy) M(__VA_ARGS__,S_xyyx) M(__VA_ARGS__,S_xyyy) M(__VA_ARGS__,S_yxxx) M(__VA_ARGS__,S_yxxy) M(__VA_ARGS__,S_yxyx) M(__VA_ARGS__,S_yxyy) M(__VA_ARGS__,S_yyxx) M(__VA_ARGS__,S_yyxy) M(__VA_ARGS__,S_yyyx) M(__VA_ARGS__,S_yyyy)
#define R3_1(M,...) M(__VA_ARGS__,S_x) M(__VA_ARGS__,S_y) M(__VA_ARGS__,S_z)
#define W3_1(M,...) M(__VA_ARGS__,S_x) M(__VA_ARGS__,S_y) M(__VA_ARGS__,S_z)
#define N3_1(M,...) 
#define R3_2(M,...) M(__VA_ARGS__,S_xx) M(__VA_ARGS__,S_xy) M(__VA_ARGS__,S_xz) M(__VA_ARGS__,S_yx) M(__VA_ARGS__,S_yy) M(__VA_ARGS__,S_yz) M(__VA_ARGS__,S_zx) M(__VA_ARGS__,S_zy) M(__VA_ARGS__,S_zz)
#define W3_2(M,...) M(__VA_ARGS__,S_xy) M(__VA_ARGS__,S_xz) M(__VA_ARGS__,S_yx) M(__VA_ARGS__,S_yz) M(__VA_ARGS__,S_zx) M(__VA_ARGS__,S_zy)
#define N3_2(M,...) M(__VA_ARGS__,S_xx) M(__VA_ARGS__,S_yy) M(__VA_ARGS__,S_zz)
#define R3_3(M,...) M(__VA_ARGS__,S_xxx) M(__VA_ARGS__,S_xxy) M(__VA_ARGS__,S_xxz) M(__VA_ARGS__,S_xyx) M(__VA_ARGS__,S_xyy) M(__VA_ARGS__,S_xyz) M(__VA_ARGS__,S_xzx) M(__VA_ARGS__,S_xzy) M(__VA_ARGS__,S_xzz) M(__VA_ARGS__,S_yxx) M(__VA_ARGS__,S_yxy) M(__VA_ARGS__,S_yxz) M(__VA_ARGS__,S_yyx) M(__VA_ARGS__,S_yyy) M(__VA_ARGS__,S_yyz) M(__VA_ARGS__,S_yzx) M(__VA_ARGS__,S_yzy) M(__VA_ARGS__,S_yzz) M(__VA_ARGS__,S_zxx) M(__VA_ARGS__,S_zxy) M(__VA_ARGS__,S_zxz) M(__VA_ARGS__,S_zyx) M(__VA_ARGS__,S_zyy) M(__VA_ARGS__,S_zyz) M(__VA_ARGS__,S_zzx) M(__VA_ARGS__,S_zzy) M(__VA_ARGS__,S_zzz)
#define W3_3(M,...) M(__VA_ARGS__,S_xyz) M(__VA_ARGS__,S_xzy) M(__VA_ARGS__,S_yxz) M(__VA_ARGS__,S_yzx) M(__VA_ARGS__,S_zxy) M(__VA_ARGS__,S_zyx)
#define N3_3(M,...) M(__VA_ARGS__,S_xxx) M(__VA_ARGS__,S_xxy) M(__VA_ARGS__,S_xxz) M(__VA_ARGS__,S_xyx) M(__VA_ARGS__,S_xyy) M(__VA_ARGS__,S_xzx) M(__VA_ARGS__,S_xzz) M(__VA_ARGS__,S_yxx) M(__VA_ARGS__,S_yxy) M(__VA_ARGS__,S_yyx) M(__VA_ARGS__,S_yyy) M(__VA_ARGS__,S_yyz) M(__VA_ARGS__,S_yzy) M(__VA_ARGS__,S_yzz) M(__VA_ARGS__,S_zxx) M(__VA_ARGS__,S_zxz) M(__VA_ARGS__,S_zyy) M(__VA_ARGS__,S_zyz) M(__VA_ARGS__,S_zzx) M(__VA_ARGS__,S_zzy) M(__VA_ARGS__,S_zzz)
#define R3_4(M,...) M(__VA_ARGS__,S_xxxx) M(__VA_ARGS__,S_xxxy) M(__VA_ARGS__,S_xxxz) M(__VA_ARGS__,S_xxyx) M(__VA_ARGS__,S_xxyy) M(__VA_ARGS__,S_xxyz) M(__VA_ARGS__,S_xxzx) M(__VA_ARGS__,S_xxzy) M(__VA_ARGS__,S_xxzz) M(__VA_ARGS__,S_xyxx) M(__VA_ARGS__,S_xyxy) M(__VA_ARGS__,S_xyxz) M(__VA_ARGS__,S_xyyx) M(__VA_ARGS__,S_xyyy) M(__VA_ARGS__,S_xyyz) M(__VA_ARGS__,S_xyzx) M(__VA_ARGS__,S_xyzy) M(__VA_ARGS__,S_xyzz) M(__VA_ARGS__,S_xzxx) M(__VA_ARGS__,S_xzxy) M(__VA_ARGS__,S_xzxz) M(__VA_ARGS__,S_xzyx) M(__VA_ARGS__,S_xzyy) M(__VA_ARGS__,S_xzyz) M(__VA_ARGS__,S_xzzx) M(__VA_ARGS__,S_xzzy) M(__VA_ARGS__,S_xzzz) M(__VA_ARGS__,S_yxxx) M(__VA_ARGS__,S_yxxy) M(__VA_ARGS__,S_yxxz) M(__VA_ARGS__,S_yxyx) M(__VA_ARGS__,S_yxyy) M(__VA_ARGS__,S_yxyz) M(__VA_ARGS__,S_yxzx) M(__VA_ARGS__,S_yxzy) M(__VA_ARGS__,S_yxzz) M(__VA_ARGS__,S_yyxx) M(__VA_ARGS__,S_yyxy) M(__VA_ARGS__,S_yyxz) M(__VA_ARGS__,S_yyyx) M(__VA_ARGS__,S_yyyy) M(__VA_ARGS__,S_yyyz) M(__VA_ARGS__,S_yyzx) M(__VA_ARGS__,S_yyzy) M(__VA_ARGS__,S_yyzz) M(__VA_ARGS__,S_yzxx) M(__VA_ARGS__,S_yzxy) M(__VA_ARGS__,S_yzxz) M(__VA_ARGS__,S_yzyx) M(__VA_ARGS__,S_yzyy) M(__VA_ARGS__,S_yzyz) M(__VA_ARGS__,S_yzzx) M(__VA_ARGS__,S_yzzy) M(__VA_ARGS__,S_yzzz) M(__VA_ARGS__,S_zxxx) M(__VA_ARGS__,S_zxxy) M(__VA_ARGS__,S_zxxz) M(__VA_ARGS__,S_zxyx) M(__VA_ARGS__,S_zxyy) M(__VA_ARGS__,S_zxyz) M(__VA_ARGS__,S_zxzx) M(__VA_ARGS__,S_zxzy) M(__VA_ARGS__,S_zxzz) M(__VA_ARGS__,S_zyxx) M(__VA_ARGS__,S_zyxy) M(__VA_ARGS__,S_zyxz) M(__VA_ARGS__,S_zyyx) M(__VA_ARGS__,S_zyyy) M(__VA_ARGS__,S_zyyz) M(__VA_ARGS__,S_zyzx) M(__VA_ARGS__,S_zyzy) M(__VA_ARGS__,S_zyzz) M(__VA_ARGS__,S_zzxx) M(__VA_ARGS__,S_zzxy) M(__VA_ARGS__,S_zzxz) M(__VA_ARGS__,S_zzyx) M(__VA_ARGS__,S_zzyy) M(__VA_ARGS__,S_zzyz) M(__VA_ARGS__,S_zzzx) M(__VA_ARGS__,S_zzzy) M(__VA_ARGS__,S_zzzz)
#define W3_4(M,...) 
#define N3_4(M,...) M(__VA_ARGS__,S_xxxx) M(__VA_ARGS__,S_xxxy) M(__VA_ARGS__,S_xxxz) M(__VA_ARGS__,S_xxyx) M(__VA_ARGS__,S_xxyy) M(__VA_ARGS__,S_xxyz) M(__VA_ARGS__,S_xxzx) M(__VA_ARGS__,S_xxzy) M(__VA_ARGS__,S_xxzz) M(__VA_ARGS__,S_xyxx) M(__VA_ARGS__,S_xyxy) M(__VA_ARGS__,S_xyxz) M(__VA_ARGS__,S_xyyx) M(__VA_ARGS__,S_xyyy) M(__VA_ARGS__,S_xyyz) M(__VA_ARGS__,S_xyzx) M(__VA_ARGS__,S_xyzy) M(__VA_ARGS__,S_xyzz) M(__VA_ARGS__,S_xzxx) M(__VA_ARGS__,S_xzxy) M(__VA_ARGS__,S_xzxz) M(__VA_ARGS__,S_xzyx) M(__VA_ARGS__,S_xzyy) M(__VA_ARGS__,S_xzyz) M(__VA_ARGS__,S_xzzx) M(__VA_ARGS__,S_xzzy) M(__VA_ARGS__,S_xzzz) M(__VA_ARGS__,S_yxxx) M(__VA_ARGS__,S_yxxy) M(__VA_ARGS__,S_yxxz) M(__VA_ARGS__,S_yxyx) M(__VA_ARGS__,S_yxyy) M(__VA_ARGS__,S_yxyz) M(__VA_ARGS__,S_yxzx) M(__VA_ARGS__,S_yxzy) M(__VA_ARGS__,S_yxzz) M(__VA_ARGS__,S_yyxx) M(__VA_ARGS__,S_yyxy) M(__VA_ARGS__,S_yyxz) M(__VA_ARGS__,S_yyyx) M(__VA_ARGS__,S_yyyy) M(__VA_ARGS__,S_yyyz) M(__VA_ARGS__,S_yyzx) M(__VA_ARGS__,S_yyzy) M(__VA_ARGS__,S_yyzz) M(__VA_ARGS__,S_yzxx) M(__VA_ARGS__,S_yzxy) M(__VA_ARGS__,S_yzxz) M(__VA_ARGS__,S_yzyx) M(__VA_ARGS__,S_yzyy) M(__VA_ARGS__,S_yzyz) M(__VA_ARGS__,S_yzzx) M(__VA_ARGS__,S_yzzy) M(__VA_ARGS__,S_yzzz) M(__VA_ARGS__,S_zxxx) M(__VA_ARGS__,S_zxxy) M(__VA_ARGS__,S_zxxz) M(__VA_ARGS__,S_zxyx) M(__VA_ARGS__,S_zxyy) M(__VA_ARGS__,S_zxyz) M(__VA_ARGS__,S_zxzx) M(__VA_ARGS__,S_zxzy) M(__VA_ARGS__,S_zxzz) M(__VA_ARGS__,S_zyxx) M(__VA_ARGS__,S_zyxy) M(__VA_ARGS__,S_zyxz) M(__VA_ARGS__,S_zyyx) M(__VA_ARGS__,S_zyyy) M(__VA_ARGS__,S_zyyz) M(__VA_ARGS__,S_zyzx) M(__VA_ARGS__,S_zyzy) M(__VA_ARGS__,S_zyzz) M(__VA_ARGS__,S_zzxx) M(__VA_ARGS__,S_zzxy) M(__VA_ARGS__,S_zzxz) M(__VA_ARGS__,S_zzyx) M(__VA_ARGS__,S_zzyy) M(__VA_ARGS__,S_zzyz) M(__VA_ARGS__,S_zzzx) M(__VA_ARGS__,S_zzzy) M(__VA_ARGS__,S_zzzz)
#define R4_1(M,...) M(__VA_ARGS__,S_x) M(__VA_ARGS__,S_y) M(__VA_ARGS__,S_z) M(__VA_ARGS__,S_w)
#define W4_1(M,...) M(__VA_ARGS__,S_x) M(__VA_ARGS__,S_y) M(__VA_ARGS__,S_z) M(__VA_ARGS__,S_w)
#define N4_1(M,...) 
#define R4_2(M,...) M(__VA_ARGS__,S_xx) M(__VA_ARGS__,S_xy) M(__VA_ARGS__,S_xz) M(__VA_ARGS__,S_xw) M(__VA_ARGS__,S_yx) M(__VA_ARGS__,S_yy) M(__VA_ARGS__,S_yz) M(__VA_ARGS__,S_yw) M(__VA_ARGS__,S_zx) M(__VA_ARGS__,S_zy) M(__VA_ARGS__,S_zz) M(__VA_ARGS__,S_zw) M(__VA_ARGS__,S_wx) M(__VA_ARGS__,S_wy) M(__VA_ARGS__,S_wz) M(__VA_ARGS__,S_ww)
#define W4_2(M,...) M(__VA_ARGS__,S_xy) M(__VA_ARGS__,S_xz) M(__VA_ARGS__,S_xw) M(__VA_ARGS__,S_yx) M(__VA_ARGS__,S_yz) M(__VA_ARGS__,S_yw) M(__VA_ARGS__,S_zx) M(__VA_ARGS__,S_zy) M(__VA_ARGS__,S_zw) M(__VA_ARGS__,S_wx) M(__VA_ARGS__,S_wy) M(__VA_ARGS__,S_wz)
#define N4_2(M,...) M(__VA_ARGS__,S_xx) M(__VA_ARGS__,S_yy) M(__VA_ARGS__,S_zz) M(__VA_ARGS__,S_ww)
#define R4_3(M,...) M(__VA_ARGS__,S_xxx) M(__VA_ARGS__,S_xxy) M(__VA_ARGS__,S_xxz) M(__VA_ARGS__,S_xxw) M(__VA_ARGS__,S_xyx) M(__VA_ARGS__,S_xyy) M(__VA_ARGS__,S_xyz) M(__VA_ARGS__,S_xyw) M(__VA_ARGS__,S_xzx) M(__VA_ARGS__,S_xzy) M(__VA_ARGS__,S_xzz) M(__VA_ARGS__,S_xzw) M(__VA_ARGS__,S_xwx) M(__VA_ARGS__,S_xwy) M(__VA_ARGS__,S_xwz) M(__VA_ARGS__,S_xww) M(__VA_ARGS__,S_yxx) M(__VA_ARGS__,S_yxy) M(__VA_ARGS__,S_yxz) M(__VA_ARGS__,S_yxw) M(__VA_ARGS__,S_yyx) M(__VA_ARGS__,S_yyy) M(__VA_ARGS__,S_yyz) M(__VA_ARGS__,S_yyw) M(__VA_ARGS__,S_yzx) M(__VA_ARGS__,S_yzy) M(__VA_ARGS__,S_yzz) M(__VA_ARGS__,S_yzw) M(__VA_ARGS__,S_ywx) M(__VA_ARGS__,S_ywy) M(__VA_ARGS__,S_ywz) M(__VA_ARGS__,S_yww) M(__VA_ARGS__,S_zxx) M(__VA_ARGS__,S_zxy) M(__VA_ARGS__,S_zxz) M(__VA_ARGS__,S_zxw) M(__VA_ARGS__,S_zyx) M(__VA_ARGS__,S_zyy) M(__VA_ARGS__,S_zyz) M(__VA_ARGS__,S_zyw) M(__VA_ARGS__,S_zzx) M(__VA_ARGS__,S_zzy) M(__VA_ARGS__,S_zzz) M(__VA_ARGS__,S_zzw) M(__VA_ARGS__,S_zwx) M(__VA_ARGS__,S_zwy) M(__VA_ARGS__,S_zwz) M(__VA_ARGS__,S_zww) M(__VA_ARGS__,S_wxx) M(__VA_ARGS__,S_wxy) M(__VA_ARGS__,S_wxz) M(__VA_ARGS__,S_wxw) M(__VA_ARGS__,S_wyx) M(__VA_ARGS__,S_wyy) M(__VA_ARGS__,S_wyz) M(__VA_ARGS__,S_wyw) M(__VA_ARGS__,S_wzx) M(__VA_ARGS__,S_wzy) M(__VA_ARGS__,S_wzz) M(__VA_ARGS__,S_wzw) M(__VA_ARGS__,S_wwx) M(__VA_ARGS__,S_wwy) M(__VA_ARGS__,S_wwz) M(__VA_ARGS__,S_www)
#define W4_3(M,...) M(__VA_ARGS__,S_xyz) M(__VA_ARGS__,S_xyw) M(__VA_ARGS__,S_xzy) M(__VA_ARGS__,S_xzw) M(__VA_ARGS__,S_xwy) M(__VA_ARGS__,S_xwz) M(__VA_ARGS__,S_yxz) M(__VA_ARGS__,S_yxw) M(__VA_ARGS__,S_yzx) M(__VA_ARGS__,S_yzw) M(__VA_ARGS__,S_ywx) M(__VA_ARGS__,S_ywz) M(__VA_ARGS__,S_zxy) M(__VA_ARGS__,S_zxw) M(__VA_ARGS__,S_zyx) M(__VA_ARGS__,S_zyw) M(__VA_ARGS__,S_zwx) M(__VA_ARGS__,S_zwy) M(__VA_ARGS__,S_wxy) M(__VA_ARGS__,S_wxz) M(__VA_ARGS__,S_wyx) M(__VA_ARGS__,S_wyz) M(__VA_ARGS__,S_wzx) M(__VA_ARGS__,S_wzy)
#define N4_3(M,...) M(__VA_ARGS__,S_xxx) M(__VA_ARGS__,S_xxy) M(__VA_ARGS__,S_xxz) M(__VA_ARGS__,S_xxw) M(__VA_ARGS__,S_xyx) M(__VA_ARGS__,S_xyy) M(__VA_ARGS__,S_xzx) M(__VA_ARGS__,S_xzz) M(__VA_ARGS__,S_xwx) M(__VA_ARGS__,S_xww) M(__VA_ARGS__,S_yxx) M(__VA_ARGS__,S_yxy) M(__VA_ARGS__,S_yyx) M(__VA_ARGS__,S_yyy) M(__VA_ARGS__,S_yyz) M(__VA_ARGS__,S_yyw) M(__VA_ARGS__,S_yzy) M(__VA_ARGS__,S_yzz) M(__VA_ARGS__,S_ywy) M(__VA_ARGS__,S_yww) M(__VA_ARGS__,S_zxx) M(__VA_ARGS__,S_zxz) M(__VA_ARGS__,S_zyy) M(__VA_ARGS__,S_zyz) M(__VA_ARGS__,S_zzx) M(__VA_ARGS__,S_zzy) M(__VA_ARGS__,S_zzz) M(__VA_ARGS__,S_zzw) M(__VA_ARGS__,S_zwz) M(__VA_ARGS__,S_zww) M(__VA_ARGS__,S_wxx) M(__VA_ARGS__,S_wxw) M(__VA_ARGS__,S_wyy) M(__VA_ARGS__,S_wyw) M(__VA_ARGS__,S_wzz) M(__VA_ARGS__,S_wzw) M(__VA_ARGS__,S_wwx) M(__VA_ARGS__,S_wwy) M(__VA_ARGS__,S_wwz) M(__VA_ARGS__,S_www)
#define R4_4(M,...) M(__VA_ARGS__,S_xxxx) M(__VA_ARGS__,S_xxxy) M(__VA_ARGS__,S_xxxz) M(__VA_ARGS__,S_xxxw) M(__VA_ARGS__,S_xxyx) M(__VA_ARGS__,S_xxyy) M(__VA_ARGS__,S_xxyz) M(__VA_ARGS__,S_xxyw) M(__VA_ARGS__,S_xxzx) M(__VA_ARGS__,S_xxzy) M(__VA_ARGS__,S_xxzz) M(__VA_ARGS__,S_xxzw) M(__VA_ARGS__,S_xxwx) M(__VA_ARGS__,S_xxwy) M(__VA_ARGS__,S_xxwz) M(__VA_ARGS__,S_xxww) M(__VA_ARGS__,S_xyxx) M(__VA_ARGS__,S_xyxy) M(__VA_ARGS__,S_xyxz) M(__VA_ARGS__,S_xyxw) M(__VA_ARGS__,S_xyyx) M(__VA_ARGS__,S_xyyy) M(__VA_ARGS__,S_xyyz) M(__VA_ARGS__,S_xyyw) M(__VA_ARGS__,S_xyzx) M(__VA_ARGS__,S_xyzy) M(__VA_ARGS__,S_xyzz) M(__VA_ARGS__,S_xyzw) M(__VA_ARGS__,S_xywx) M(__VA_ARGS__,S_xywy) M(__VA_ARGS__,S_xywz) M(__VA_ARGS__,S_xyww) M(__VA_ARGS__,S_xzxx) M(__VA_ARGS__,S_xzxy) M(__VA_ARGS__,S_xzxz) M(__VA_ARGS__,S_xzxw) M(__VA_ARGS__,S_xzyx) M(__VA_ARGS__,S_xzyy) M(__VA_ARGS__,S_xzyz) M(__VA_ARGS__,S_xzyw) M(__VA_ARGS__,S_xzzx) M(__VA_ARGS__,S_xzzy) M(__VA_ARGS__,S_xzzz) M(__VA_ARGS__,S_xzzw) M(__VA_ARGS__,S_xzwx) M(__VA_ARGS__,S_xzwy) M(__VA_ARGS__,S_xzwz) M(__VA_ARGS__,S_xzww) M(__VA_ARGS__,S_xwxx) M(__VA_ARGS__,S_xwxy) M(__VA_ARGS__,S_xwxz) M(__VA_ARGS__,S_xwxw) M(__VA_ARGS__,S_xwyx) M(__VA_ARGS__,S_xwyy) M(__VA_ARGS__,S_xwyz) M(__VA_ARGS__,S_xwyw) M(__VA_ARGS__,S_xwzx) M(__VA_ARGS__,S_xwzy) M(__VA_ARGS__,S_xwzz) M(__VA_ARGS__,S_xwzw) M(__VA_ARGS__,S_xwwx) M(__VA_ARGS__,S_xwwy) M(__VA_ARGS__,S_xwwz) M(__VA_ARGS__,S_xwww) M(__VA_ARGS__,S_yxxx) M(__VA_ARGS__,S_yxxy) M(__VA_ARGS__,S_yxxz) M(__VA_ARGS__,S_yxxw) M(__VA_ARGS__,S_yxyx) M(__VA_ARGS__,S_yxyy) M(__VA_ARGS__,S_yxyz) M(__VA_ARGS__,S_yxyw) M(__VA_ARGS__,S_yxzx) M(__VA_ARGS__,S_yxzy) M(__VA_ARGS__,S_yxzz) M(__VA_ARGS__,S_yxzw) M(__VA_ARGS__,S_yxwx) M(__VA_ARGS__,S_yxwy) M(__VA_ARGS__,S_yxwz) M(__VA_ARGS__,S_yxww) M(__VA_ARGS__,S_yyxx) M(__VA_ARGS__,S_yyxy) M(__VA_ARGS__,S_yyxz) M(__VA_ARGS__,S_yyxw) M(__VA_ARGS__,S_yyyx) M(__VA_ARGS__,S_yyyy) M(__VA_ARGS__,S_yyyz) M(__VA_ARGS__,S_yyyw) M(__VA_ARGS__,S_yyzx) M(__VA_ARGS__,S_yyzy) M(__VA_ARGS__,S_yyzz) M(__VA_ARGS__,S_yyzw) M(__VA_ARGS__,S_yywx) M(__VA_ARGS__,S_yywy) M(__VA_ARGS__,S_yywz) M(__VA_ARGS__,S_yyww) M(__VA_ARGS__,S_yzxx) M(__VA_ARGS__,S_yzxy) M(__VA_ARGS__,S_yzxz) M(__VA_ARGS__,S_yzxw) M(__VA_ARGS__,S_yzyx) M(__VA_ARGS__,S_yzyy) M(__VA_ARGS__,S_yzyz) M(__VA_ARGS__,S_yzyw) M(__VA_ARGS__,S_yzzx) M(__VA_ARGS__,S_yzzy) M(__VA_ARGS__,S_yzzz) M(__VA_ARGS__,S_yzzw) M(__VA_ARGS__,S_yzwx) M(__VA_ARGS__,S_yzwy) M(__VA_ARGS__,S_yzwz) M(__VA_ARGS__,S_yzww) M(__VA_ARGS__,S_ywxx) M(__VA_ARGS__,S_ywxy) M(__VA_ARGS__,S_ywxz) M(__VA_ARGS__,S_ywxw) M(__VA_ARGS__,S_ywyx) M(__VA_ARGS__,S_ywyy) M(__VA_ARGS__,S_ywyz) M(__VA_ARGS__,S_ywyw) M(__VA_ARGS__,S_ywzx) M(__VA_ARGS__,S_ywzy) M(__VA_ARGS__,S_ywzz) M(__VA_ARGS__,S_ywzw) M(__VA_ARGS__,S_ywwx) M(__VA_ARGS__,S_ywwy) M(__VA_ARGS__,S_ywwz) M(__VA_ARGS__,S_ywww) M(__VA_ARGS__,S_zxxx) M(__VA_ARGS__,S_zxxy) M(__VA_ARGS__,S_zxxz) M(__VA_ARGS__,S_zxxw) M(__VA_ARGS__,S_zxyx) M(__VA_ARGS__,S_zxyy) M(__VA_ARGS__,S_zxyz) M(__VA_ARGS__,S_zxyw) M(__VA_ARGS__,S_zxzx) M(__VA_ARGS__,S_zxzy) M(__VA_ARGS__,S_zxzz) M(__VA_ARGS__,S_zxzw) M(__VA_ARGS__,S_zxwx) M(__VA_ARGS__,S_zxwy) M(__VA_ARGS__,S_zxwz) M(__VA_ARGS__,S_zxww) M(__VA_ARGS__,S_zyxx) M(__VA_ARGS__,S_zyxy) M(__VA_ARGS__,S_zyxz) M(__VA_ARGS__,S_zyxw) M(__VA_ARGS__,S_zyyx) M(__VA_ARGS__,S_zyyy) M(__VA_ARGS__,S_zyyz) M(__VA_ARGS__,S_zyyw) M(__VA_ARGS__,S_zyzx) M(__VA_ARGS__,S_zyzy) M(__VA_ARGS__,S_zyzz) M(__VA_ARGS__,S_zyzw) M(__VA_ARGS__,S_zywx) M(__VA_ARGS__,S_zywy) M(__VA_ARGS__,S_zywz) M(__VA_ARGS__,S_zyww) M(__VA_ARGS__,S_zzxx) M(__VA_ARGS__,S_zzxy) M(__VA_ARGS__,S_zzxz) M(__VA_ARGS__,S_zzxw) M(__VA_ARGS__,S_zzyx) M(__VA_ARGS__,S_zzyy) M(__VA_ARGS__,S_zzyz) M(__VA_ARGS__,S_zzyw) M(__VA_ARGS__,S_zzzx) M(__VA_ARGS__,S_zzzy) M(__VA_ARGS__,S_zzzz) M(__VA_ARGS__,S_zzzw) M(__VA_ARGS__,S_zzwx) M(__VA_ARGS__,S_zzwy) M(__VA_ARGS__,S_zzwz) M(__VA_ARGS__,S_zzww) M(__VA_ARGS__,S_zwxx) M(__VA_ARGS__,S_zwxy) M(__VA_ARGS__,S_zwxz) M(__VA_ARGS__,S_zwxw) M(__VA_ARGS__,S_zwyx) M(__VA_ARGS__,S_zwyy) M(__VA_ARGS__,S_zwyz) M(__VA_ARGS__,S_zwyw) M(__VA_ARGS__,S_zwzx) M(__VA_ARGS__,S_zwzy) M(__VA_ARGS__,S_zwzz) M(__VA_ARGS__,S_zwzw) M(__VA_ARGS__,S_zwwx) M(__VA_ARGS__,S_zwwy) M(__VA_ARGS__,S_zwwz) M(__VA_ARGS__,S_zwww) M(__VA_ARGS__,S_wxxx) M(__VA_ARGS__,S_wxxy) M(__VA_ARGS__,S_wxxz) M(__VA_ARGS__,S_wxxw) M(__VA_ARGS__,S_wxyx) M(__VA_ARGS__,S_wxyy) M(__VA_ARGS__,S_wxyz) M(__VA_ARGS__,S_wxyw) M(__VA_ARGS__,S_wxzx) M(__VA_ARGS__,S_wxzy) M(__VA_ARGS__,S_wxzz) M(__VA_ARGS__,S_wxzw) M(__VA_ARGS__,S_wxwx) M(__VA_ARGS__,S_wxwy) M(__VA_ARGS__,S_wxwz) M(__VA_ARGS__,S_wxww) M(__VA_ARGS__,S_wyxx) M(__VA_ARGS__,S_wyxy) M(__VA_ARGS__,S_wyxz) M(__VA_ARGS__,S_wyxw) M(__VA_ARGS__,S_wyyx) M(__VA_ARGS__,S_wyyy) M(__VA_ARGS__,S_wyyz) M(__VA_ARGS__,S_wyyw) M(__VA_ARGS__,S_wyzx) M(__VA_ARGS__,S_wyzy) M(__VA_ARGS__,S_wyzz) M(__VA_ARGS__,S_wyzw) M(__VA_ARGS__,S_wywx) M(__VA_ARGS__,S_wywy) M(__VA_ARGS__,S_wywz) M(__VA_ARGS__,S_wyww) M(__VA_ARGS__,S_wzxx) M(__VA_ARGS__,S_wzxy) M(__VA_ARGS__,S_wzxz) M(__VA_ARGS__,S_wzxw) M(__VA_ARGS__,S_wzyx) M(__VA_ARGS__,S_wzyy) M(__VA_ARGS__,S_wzyz) M(__VA_ARGS__,S_wzyw) M(__VA_ARGS__,S_wzzx) M(__VA_ARGS__,S_wzzy) M(__VA_ARGS__,S_wzzz) M(__VA_ARGS__,S_wzzw) M(__VA_ARGS__,S_wzwx) M(__VA_ARGS__,S_wzwy) M(__VA_ARGS__,S_wzwz) M(__VA_ARGS__,S_wzww) M(__VA_ARGS__,S_wwxx) M(__VA_ARGS__,S_wwxy) M(__VA_ARGS__,S_wwxz) M(__VA_ARGS__,S_wwxw) M(__VA_ARGS__,S_wwyx) M(__VA_ARGS__,S_wwyy) M(__VA_ARGS__,S_wwyz) M(__VA_ARGS__,S_wwyw) M(__VA_ARGS__,S_wwzx) M(__VA_ARGS__,S_wwzy) M(__VA_ARGS__,S_wwzz) M(__VA_ARGS__,S_wwzw) M(__VA_ARGS__,S_wwwx) M(__VA_ARGS__,S_wwwy) M(__VA_ARGS__,S_wwwz) M(__VA_ARGS__,S_wwww)
#define W4_4(M,...) M(__VA_ARGS__,S_xyzw) M(__VA_ARGS__,S_xywz) M(__VA_ARGS__,S_xzyw) M(__VA_ARGS__,S_xzwy) M(__VA_ARGS__,S_xwyz) M(__VA_ARGS__,S_xwzy) M(__VA_ARGS__,S_yxzw) M(__VA_ARGS__,S_yxwz) M(__VA_ARGS__,S_yzxw) M(__VA_ARGS__,S_yzwx) M(__VA_ARGS__,S_ywxz) M(__VA_ARGS__,S_ywzx) M(__VA_ARGS__,S_zxyw) M(__VA_ARGS__,S_zxwy) M(__VA_ARGS__,S_zyxw) M(__VA_ARGS__,S_zywx) M(__VA_ARGS__,S_zwxy) M(__VA_ARGS__,S_zwyx) M(__VA_ARGS__,S_wxyz) M(__VA_ARGS__,S_wxzy) M(__VA_ARGS__,S_wyxz) M(__VA_ARGS__,S_wyzx) M(__VA_ARGS__,S_wzxy) M(__VA_ARGS__,S_wzyx)
#define N4_4(M,...) M(__VA_ARGS__,S_xxxx) M(__VA_ARGS__,S_xxxy) M(__VA_ARGS__,S_xxxz) M(__VA_ARGS__,S_xxxw) M(__VA_ARGS__,S_xxyx) M(__VA_ARGS__,S_xxyy) M(__VA_ARGS__,S_xxyz) M(__VA_ARGS__,S_xxyw) M(__VA_ARGS__,S_xxzx) M(__VA_ARGS__,S_xxzy) M(__VA_ARGS__,S_xxzz) M(__VA_ARGS__,S_xxzw) M(__VA_ARGS__,S_xxwx) M(__VA_ARGS__,S_xxwy) M(__VA_ARGS__,S_xxwz) M(__VA_ARGS__,S_xxww) M(__VA_ARGS__,S_xyxx) M(__VA_ARGS__,S_xyxy) M(__VA_ARGS__,S_xyxz) M(__VA_ARGS__,S_xyxw) M(__VA_ARGS__,S_xyyx) M(__VA_ARGS__,S_xyyy) M(__VA_ARGS__,S_xyyz) M(__VA_ARGS__,S_xyyw) M(__VA_ARGS__,S_xyzx) M(__VA_ARGS__,S_xyzy) M(__VA_ARGS__,S_xyzz) M(__VA_ARGS__,S_xywx) M(__VA_ARGS__,S_xywy) M(__VA_ARGS__,S_xyww) M(__VA_ARGS__,S_xzxx) M(__VA_ARGS__,S_xzxy) M(__VA_ARGS__,S_xzxz) M(__VA_ARGS__,S_xzxw) M(__VA_ARGS__,S_xzyx) M(__VA_ARGS__,S_xzyy) M(__VA_ARGS__,S_xzyz) M(__VA_ARGS__,S_xzzx) M(__VA_ARGS__,S_xzzy) M(__VA_ARGS__,S_xzzz) M(__VA_ARGS__,S_xzzw) M(__VA_ARGS__,S_xzwx) M(__VA_ARGS__,S_xzwz) M(__VA_ARGS__,S_xzww) M(__VA_ARGS__,S_xwxx) M(__VA_ARGS__,S_xwxy) M(__VA_ARGS__,S_xwxz) M(__VA_ARGS__,S_xwxw) M(__VA_ARGS__,S_xwyx) M(__VA_ARGS__,S_xwyy) M(__VA_ARGS__,S_xwyw) M(__VA_ARGS__,S_xwzx) M(__VA_ARGS__,S_xwzz) M(__VA_ARGS__,S_xwzw) M(__VA_ARGS__,S_xwwx) M(__VA_ARGS__,S_xwwy) M(__VA_ARGS__,S_xwwz) M(__VA_ARGS__,S_xwww) M(__VA_ARGS__,S_yxxx) M(__VA_ARGS__,S_yxxy) M(__VA_ARGS__,S_yxxz) M(__VA_ARGS__,S_yxxw) M(__VA_ARGS__,S_yxyx) M(__VA_ARGS__,S_yxyy) M(__VA_ARGS__,S_yxyz) M(__VA_ARGS__,S_yxyw) M(__VA_ARGS__,S_yxzx) M(__VA_ARGS__,S_yxzy) M(__VA_ARGS__,S_yxzz) M(__VA_ARGS__,S_yxwx) M(__VA_ARGS__,S_yxwy) M(__VA_ARGS__,S_yxww) M(__VA_ARGS__,S_yyxx) M(__VA_ARGS__,S_yyxy) M(__VA_ARGS__,S_yyxz) M(__VA_ARGS__,S_yyxw) M(__VA_ARGS__,S_yyyx) M(__VA_ARGS__,S_yyyy) M(__VA_ARGS__,S_yyyz) M(__VA_ARGS__,S_yyyw) M(__VA_ARGS__,S_yyzx) M(__VA_ARGS__,S_yyzy) M(__VA_ARGS__,S_yyzz) M(__VA_ARGS__,S_yyzw) M(__VA_ARGS__,S_yywx) M(__VA_ARGS__,S_yywy) M(__VA_ARGS__,S_yywz) M(__VA_ARGS__,S_yyww) M(__VA_ARGS__,S_yzxx) M(__VA_ARGS__,S_yzxy) M(__VA_ARGS__,S_yzxz) M(__VA_ARGS__,S_yzyx) M(__VA_ARGS__,S_yzyy) M(__VA_ARGS__,S_yzyz) M(__VA_ARGS__,S_yzyw) M(__VA_ARGS__,S_yzzx) M(__VA_ARGS__,S_yzzy) M(__VA_ARGS__,S_yzzz) M(__VA_ARGS__,S_yzzw) M(__VA_ARGS__,S_yzwy) M(__VA_ARGS__,S_yzwz) M(__VA_ARGS__,S_yzww) M(__VA_ARGS__,S_ywxx) M(__VA_ARGS__,S_ywxy) M(__VA_ARGS__,S_ywxw) M(__VA_ARGS__,S_ywyx) M(__VA_ARGS__,S_ywyy) M(__VA_ARGS__,S_ywyz) M(__VA_ARGS__,S_ywyw) M(__VA_ARGS__,S_ywzy) M(__VA_ARGS__,S_ywzz) M(__VA_ARGS__,S_ywzw) M(__VA_ARGS__,S_ywwx) M(__VA_ARGS__,S_ywwy) M(__VA_ARGS__,S_ywwz) M(__VA_ARGS__,S_ywww) M(__VA_ARGS__,S_zxxx) M(__VA_ARGS__,S_zxxy) M(__VA_ARGS__,S_zxxz) M(__VA_ARGS__,S_zxxw) M(__VA_ARGS__,S_zxyx) M(__VA_ARGS__,S_zxyy) M(__VA_ARGS__,S_zxyz) M(__VA_ARGS__,S_zxzx) M(__VA_ARGS__,S_zxzy) M(__VA_ARGS__,S_zxzz) M(__VA_ARGS__,S_zxzw) M(__VA_ARGS__,S_zxwx) M(__VA_ARGS__,S_zxwz) M(__VA_ARGS__,S_zxww) M(__VA_ARGS__,S_zyxx) M(__VA_ARGS__,S_zyxy) M(__VA_ARGS__,S_zyxz) M(__VA_ARGS__,S_zyyx) M(__VA_ARGS__,S_zyyy) M(__VA_ARGS__,S_zyyz) M(__VA_ARGS__,S_zyyw) M(__VA_ARGS__,S_zyzx) M(__VA_ARGS__,S_zyzy) M(__VA_ARGS__,S_zyzz) M(__VA_ARGS__,S_zyzw) M(__VA_ARGS__,S_zywy) M(__VA_ARGS__,S_zywz) M(__VA_ARGS__,S_zyww) M(__VA_ARGS__,S_zzxx) M(__VA_ARGS__,S_zzxy) M(__VA_ARGS__,S_zzxz) M(__VA_ARGS__,S_zzxw) M(__VA_ARGS__,S_zzyx) M(__VA_ARGS__,S_zzyy) M(__VA_ARGS__,S_zzyz) M(__VA_ARGS__,S_zzyw) M(__VA_ARGS__,S_zzzx) M(__VA_ARGS__,S_zzzy) M(__VA_ARGS__,S_zzzz) M(__VA_ARGS__,S_zzzw) M(__VA_ARGS__,S_zzwx) M(__VA_ARGS__,S_zzwy) M(__VA_ARGS__,S_zzwz) M(__VA_ARGS__,S_zzww) M(__VA_ARGS__,S_zwxx) M(__VA_ARGS__,S_zwxz) M(__VA_ARGS__,S_zwxw) M(__VA_ARGS__,S_zwyy) M(__VA_ARGS__,S_zwyz) M(__VA_ARGS__,S_zwyw) M(__VA_ARGS__,S_zwzx) M(__VA_ARGS__,S_zwzy) M(__VA_ARGS__,S_zwzz) M(__VA_ARGS__,S_zwzw) M(__VA_ARGS__,S_zwwx) M(__VA_ARGS__,S_zwwy) M(__VA_ARGS__,S_zwwz) M(__VA_ARGS__,S_zwww) M(__VA_ARGS__,S_wxxx) M(__VA_ARGS__,S_wxxy) M(__VA_ARGS__,S_wxxz) M(__VA_ARGS__,S_wxxw) M(__VA_ARGS__,S_wxyx) M(__VA_ARGS__,S_wxyy) M(__VA_ARGS__,S_wxyw) M(__VA_ARGS__,S_wxzx) M(__VA_ARGS__,S_wxzz) M(__VA_ARGS__,S_wxzw) M(__VA_ARGS__,S_wxwx) M(__VA_ARGS__,S_wxwy) M(__VA_ARGS__,S_wxwz) M(__VA_ARGS__,S_wxww) M(__VA_ARGS__,S_wyxx) M(__VA_ARGS__,S_wyxy) M(__VA_ARGS__,S_wyxw) M(__VA_ARGS__,S_wyyx) M(__VA_ARGS__,S_wyyy) M(__VA_ARGS__,S_wyyz) M(__VA_ARGS__,S_wyyw) M(__VA_ARGS__,S_wyzy) M(__VA_ARGS__,S_wyzz) M(__VA_ARGS__,S_wyzw) M(__VA_ARGS__,S_wywx) M(__VA_ARGS__,S_wywy) M(__VA_ARGS__,S_wywz) M(__VA_ARGS__,S_wyww) M(__VA_ARGS__,S_wzxx) M(__VA_ARGS__,S_wzxz) M(__VA_ARGS__,S_wzxw) M(__VA_ARGS__,S_wzyy) M(__VA_ARGS__,S_wzyz) M(__VA_ARGS__,S_wzyw) M(__VA_ARGS__,S_wzzx) M(__VA_ARGS__,S_wzzy) M(__VA_ARGS__,S_wzzz) M(__VA_ARGS__,S_wzzw) M(__VA_ARGS__,S_wzwx) M(__VA_ARGS__,S_wzwy) M(__VA_ARGS__,S_wzwz) M(__VA_ARGS__,S_wzww) M(__VA_ARGS__,S_wwxx) M(__VA_ARGS__,S_wwxy) M(__VA_ARGS__,S_wwxz) M(__VA_ARGS__,S_wwxw) M(__VA_ARGS__,S_wwyx) M(__VA_ARGS__,S_wwyy) M(__VA_ARGS__,S_wwyz) M(__VA_ARGS__,S_wwyw) M(__VA_ARGS__,S_wwzx) M(__VA_ARGS__,S_wwzy) M(__VA_ARGS__,S_wwzz) M(__VA_ARGS__,S_wwzw) M(__VA_ARGS__,S_wwwx) M(__VA_ARGS__,S_wwwy) M(__VA_ARGS__,S_wwwz) M(__VA_ARGS__,S_wwww)
