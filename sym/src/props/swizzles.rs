//! C07 swizzles: expected components follow from the letters of the method name (generated by hand-run script, see DESIGN.md).
use super::*;
use crate::h;

fn swz_point1<S: Scal>() {
    let v = pnt::<S, 1>("v");
    S::h_eq("x[0]", v.x()[0], v[0]);
}
fn swz_point2<S: Scal>() {
    let v = pnt::<S, 2>("v");
    S::h_eq("x[0]", v.x()[0], v[0]);
    S::h_eq("y[0]", v.y()[0], v[1]);
    S::h_eq("xx[0]", v.xx()[0], v[0]);
    S::h_eq("xx[1]", v.xx()[1], v[0]);
    S::h_eq("xy[0]", v.xy()[0], v[0]);
    S::h_eq("xy[1]", v.xy()[1], v[1]);
    S::h_eq("yx[0]", v.yx()[0], v[1]);
    S::h_eq("yx[1]", v.yx()[1], v[0]);
    S::h_eq("yy[0]", v.yy()[0], v[1]);
    S::h_eq("yy[1]", v.yy()[1], v[1]);
}
fn swz_point3<S: Scal>() {
    let v = pnt::<S, 3>("v");
    S::h_eq("x[0]", v.x()[0], v[0]);
    S::h_eq("y[0]", v.y()[0], v[1]);
    S::h_eq("z[0]", v.z()[0], v[2]);
    S::h_eq("xx[0]", v.xx()[0], v[0]);
    S::h_eq("xx[1]", v.xx()[1], v[0]);
    S::h_eq("xy[0]", v.xy()[0], v[0]);
    S::h_eq("xy[1]", v.xy()[1], v[1]);
    S::h_eq("xz[0]", v.xz()[0], v[0]);
    S::h_eq("xz[1]", v.xz()[1], v[2]);
    S::h_eq("yx[0]", v.yx()[0], v[1]);
    S::h_eq("yx[1]", v.yx()[1], v[0]);
    S::h_eq("yy[0]", v.yy()[0], v[1]);
    S::h_eq("yy[1]", v.yy()[1], v[1]);
    S::h_eq("yz[0]", v.yz()[0], v[1]);
    S::h_eq("yz[1]", v.yz()[1], v[2]);
    S::h_eq("zx[0]", v.zx()[0], v[2]);
    S::h_eq("zx[1]", v.zx()[1], v[0]);
    S::h_eq("zy[0]", v.zy()[0], v[2]);
    S::h_eq("zy[1]", v.zy()[1], v[1]);
    S::h_eq("zz[0]", v.zz()[0], v[2]);
    S::h_eq("zz[1]", v.zz()[1], v[2]);
    S::h_eq("xxx[0]", v.xxx()[0], v[0]);
    S::h_eq("xxx[1]", v.xxx()[1], v[0]);
    S::h_eq("xxx[2]", v.xxx()[2], v[0]);
    S::h_eq("xxy[0]", v.xxy()[0], v[0]);
    S::h_eq("xxy[1]", v.xxy()[1], v[0]);
    S::h_eq("xxy[2]", v.xxy()[2], v[1]);
    S::h_eq("xxz[0]", v.xxz()[0], v[0]);
    S::h_eq("xxz[1]", v.xxz()[1], v[0]);
    S::h_eq("xxz[2]", v.xxz()[2], v[2]);
    S::h_eq("xyx[0]", v.xyx()[0], v[0]);
    S::h_eq("xyx[1]", v.xyx()[1], v[1]);
    S::h_eq("xyx[2]", v.xyx()[2], v[0]);
    S::h_eq("xyy[0]", v.xyy()[0], v[0]);
    S::h_eq("xyy[1]", v.xyy()[1], v[1]);
    S::h_eq("xyy[2]", v.xyy()[2], v[1]);
    S::h_eq("xyz[0]", v.xyz()[0], v[0]);
    S::h_eq("xyz[1]", v.xyz()[1], v[1]);
    S::h_eq("xyz[2]", v.xyz()[2], v[2]);
    S::h_eq("xzx[0]", v.xzx()[0], v[0]);
    S::h_eq("xzx[1]", v.xzx()[1], v[2]);
    S::h_eq("xzx[2]", v.xzx()[2], v[0]);
    S::h_eq("xzy[0]", v.xzy()[0], v[0]);
    S::h_eq("xzy[1]", v.xzy()[1], v[2]);
    S::h_eq("xzy[2]", v.xzy()[2], v[1]);
    S::h_eq("xzz[0]", v.xzz()[0], v[0]);
    S::h_eq("xzz[1]", v.xzz()[1], v[2]);
    S::h_eq("xzz[2]", v.xzz()[2], v[2]);
    S::h_eq("yxx[0]", v.yxx()[0], v[1]);
    S::h_eq("yxx[1]", v.yxx()[1], v[0]);
    S::h_eq("yxx[2]", v.yxx()[2], v[0]);
    S::h_eq("yxy[0]", v.yxy()[0], v[1]);
    S::h_eq("yxy[1]", v.yxy()[1], v[0]);
    S::h_eq("yxy[2]", v.yxy()[2], v[1]);
    S::h_eq("yxz[0]", v.yxz()[0], v[1]);
    S::h_eq("yxz[1]", v.yxz()[1], v[0]);
    S::h_eq("yxz[2]", v.yxz()[2], v[2]);
    S::h_eq("yyx[0]", v.yyx()[0], v[1]);
    S::h_eq("yyx[1]", v.yyx()[1], v[1]);
    S::h_eq("yyx[2]", v.yyx()[2], v[0]);
    S::h_eq("yyy[0]", v.yyy()[0], v[1]);
    S::h_eq("yyy[1]", v.yyy()[1], v[1]);
    S::h_eq("yyy[2]", v.yyy()[2], v[1]);
    S::h_eq("yyz[0]", v.yyz()[0], v[1]);
    S::h_eq("yyz[1]", v.yyz()[1], v[1]);
    S::h_eq("yyz[2]", v.yyz()[2], v[2]);
    S::h_eq("yzx[0]", v.yzx()[0], v[1]);
    S::h_eq("yzx[1]", v.yzx()[1], v[2]);
    S::h_eq("yzx[2]", v.yzx()[2], v[0]);
    S::h_eq("yzy[0]", v.yzy()[0], v[1]);
    S::h_eq("yzy[1]", v.yzy()[1], v[2]);
    S::h_eq("yzy[2]", v.yzy()[2], v[1]);
    S::h_eq("yzz[0]", v.yzz()[0], v[1]);
    S::h_eq("yzz[1]", v.yzz()[1], v[2]);
    S::h_eq("yzz[2]", v.yzz()[2], v[2]);
    S::h_eq("zxx[0]", v.zxx()[0], v[2]);
    S::h_eq("zxx[1]", v.zxx()[1], v[0]);
    S::h_eq("zxx[2]", v.zxx()[2], v[0]);
    S::h_eq("zxy[0]", v.zxy()[0], v[2]);
    S::h_eq("zxy[1]", v.zxy()[1], v[0]);
    S::h_eq("zxy[2]", v.zxy()[2], v[1]);
    S::h_eq("zxz[0]", v.zxz()[0], v[2]);
    S::h_eq("zxz[1]", v.zxz()[1], v[0]);
    S::h_eq("zxz[2]", v.zxz()[2], v[2]);
    S::h_eq("zyx[0]", v.zyx()[0], v[2]);
    S::h_eq("zyx[1]", v.zyx()[1], v[1]);
    S::h_eq("zyx[2]", v.zyx()[2], v[0]);
    S::h_eq("zyy[0]", v.zyy()[0], v[2]);
    S::h_eq("zyy[1]", v.zyy()[1], v[1]);
    S::h_eq("zyy[2]", v.zyy()[2], v[1]);
    S::h_eq("zyz[0]", v.zyz()[0], v[2]);
    S::h_eq("zyz[1]", v.zyz()[1], v[1]);
    S::h_eq("zyz[2]", v.zyz()[2], v[2]);
    S::h_eq("zzx[0]", v.zzx()[0], v[2]);
    S::h_eq("zzx[1]", v.zzx()[1], v[2]);
    S::h_eq("zzx[2]", v.zzx()[2], v[0]);
    S::h_eq("zzy[0]", v.zzy()[0], v[2]);
    S::h_eq("zzy[1]", v.zzy()[1], v[2]);
    S::h_eq("zzy[2]", v.zzy()[2], v[1]);
    S::h_eq("zzz[0]", v.zzz()[0], v[2]);
    S::h_eq("zzz[1]", v.zzz()[1], v[2]);
    S::h_eq("zzz[2]", v.zzz()[2], v[2]);
}
fn swz_vector1<S: Scal>() {
    let v = vec::<S, 1>("v");
    S::h_eq("x[0]", v.x()[0], v[0]);
}
fn swz_vector2<S: Scal>() {
    let v = vec::<S, 2>("v");
    S::h_eq("x[0]", v.x()[0], v[0]);
    S::h_eq("y[0]", v.y()[0], v[1]);
    S::h_eq("xx[0]", v.xx()[0], v[0]);
    S::h_eq("xx[1]", v.xx()[1], v[0]);
    S::h_eq("xy[0]", v.xy()[0], v[0]);
    S::h_eq("xy[1]", v.xy()[1], v[1]);
    S::h_eq("yx[0]", v.yx()[0], v[1]);
    S::h_eq("yx[1]", v.yx()[1], v[0]);
    S::h_eq("yy[0]", v.yy()[0], v[1]);
    S::h_eq("yy[1]", v.yy()[1], v[1]);
}
fn swz_vector3<S: Scal>() {
    let v = vec::<S, 3>("v");
    S::h_eq("x[0]", v.x()[0], v[0]);
    S::h_eq("y[0]", v.y()[0], v[1]);
    S::h_eq("z[0]", v.z()[0], v[2]);
    S::h_eq("xx[0]", v.xx()[0], v[0]);
    S::h_eq("xx[1]", v.xx()[1], v[0]);
    S::h_eq("xy[0]", v.xy()[0], v[0]);
    S::h_eq("xy[1]", v.xy()[1], v[1]);
    S::h_eq("xz[0]", v.xz()[0], v[0]);
    S::h_eq("xz[1]", v.xz()[1], v[2]);
    S::h_eq("yx[0]", v.yx()[0], v[1]);
    S::h_eq("yx[1]", v.yx()[1], v[0]);
    S::h_eq("yy[0]", v.yy()[0], v[1]);
    S::h_eq("yy[1]", v.yy()[1], v[1]);
    S::h_eq("yz[0]", v.yz()[0], v[1]);
    S::h_eq("yz[1]", v.yz()[1], v[2]);
    S::h_eq("zx[0]", v.zx()[0], v[2]);
    S::h_eq("zx[1]", v.zx()[1], v[0]);
    S::h_eq("zy[0]", v.zy()[0], v[2]);
    S::h_eq("zy[1]", v.zy()[1], v[1]);
    S::h_eq("zz[0]", v.zz()[0], v[2]);
    S::h_eq("zz[1]", v.zz()[1], v[2]);
    S::h_eq("xxx[0]", v.xxx()[0], v[0]);
    S::h_eq("xxx[1]", v.xxx()[1], v[0]);
    S::h_eq("xxx[2]", v.xxx()[2], v[0]);
    S::h_eq("xxy[0]", v.xxy()[0], v[0]);
    S::h_eq("xxy[1]", v.xxy()[1], v[0]);
    S::h_eq("xxy[2]", v.xxy()[2], v[1]);
    S::h_eq("xxz[0]", v.xxz()[0], v[0]);
    S::h_eq("xxz[1]", v.xxz()[1], v[0]);
    S::h_eq("xxz[2]", v.xxz()[2], v[2]);
    S::h_eq("xyx[0]", v.xyx()[0], v[0]);
    S::h_eq("xyx[1]", v.xyx()[1], v[1]);
    S::h_eq("xyx[2]", v.xyx()[2], v[0]);
    S::h_eq("xyy[0]", v.xyy()[0], v[0]);
    S::h_eq("xyy[1]", v.xyy()[1], v[1]);
    S::h_eq("xyy[2]", v.xyy()[2], v[1]);
    S::h_eq("xyz[0]", v.xyz()[0], v[0]);
    S::h_eq("xyz[1]", v.xyz()[1], v[1]);
    S::h_eq("xyz[2]", v.xyz()[2], v[2]);
    S::h_eq("xzx[0]", v.xzx()[0], v[0]);
    S::h_eq("xzx[1]", v.xzx()[1], v[2]);
    S::h_eq("xzx[2]", v.xzx()[2], v[0]);
    S::h_eq("xzy[0]", v.xzy()[0], v[0]);
    S::h_eq("xzy[1]", v.xzy()[1], v[2]);
    S::h_eq("xzy[2]", v.xzy()[2], v[1]);
    S::h_eq("xzz[0]", v.xzz()[0], v[0]);
    S::h_eq("xzz[1]", v.xzz()[1], v[2]);
    S::h_eq("xzz[2]", v.xzz()[2], v[2]);
    S::h_eq("yxx[0]", v.yxx()[0], v[1]);
    S::h_eq("yxx[1]", v.yxx()[1], v[0]);
    S::h_eq("yxx[2]", v.yxx()[2], v[0]);
    S::h_eq("yxy[0]", v.yxy()[0], v[1]);
    S::h_eq("yxy[1]", v.yxy()[1], v[0]);
    S::h_eq("yxy[2]", v.yxy()[2], v[1]);
    S::h_eq("yxz[0]", v.yxz()[0], v[1]);
    S::h_eq("yxz[1]", v.yxz()[1], v[0]);
    S::h_eq("yxz[2]", v.yxz()[2], v[2]);
    S::h_eq("yyx[0]", v.yyx()[0], v[1]);
    S::h_eq("yyx[1]", v.yyx()[1], v[1]);
    S::h_eq("yyx[2]", v.yyx()[2], v[0]);
    S::h_eq("yyy[0]", v.yyy()[0], v[1]);
    S::h_eq("yyy[1]", v.yyy()[1], v[1]);
    S::h_eq("yyy[2]", v.yyy()[2], v[1]);
    S::h_eq("yyz[0]", v.yyz()[0], v[1]);
    S::h_eq("yyz[1]", v.yyz()[1], v[1]);
    S::h_eq("yyz[2]", v.yyz()[2], v[2]);
    S::h_eq("yzx[0]", v.yzx()[0], v[1]);
    S::h_eq("yzx[1]", v.yzx()[1], v[2]);
    S::h_eq("yzx[2]", v.yzx()[2], v[0]);
    S::h_eq("yzy[0]", v.yzy()[0], v[1]);
    S::h_eq("yzy[1]", v.yzy()[1], v[2]);
    S::h_eq("yzy[2]", v.yzy()[2], v[1]);
    S::h_eq("yzz[0]", v.yzz()[0], v[1]);
    S::h_eq("yzz[1]", v.yzz()[1], v[2]);
    S::h_eq("yzz[2]", v.yzz()[2], v[2]);
    S::h_eq("zxx[0]", v.zxx()[0], v[2]);
    S::h_eq("zxx[1]", v.zxx()[1], v[0]);
    S::h_eq("zxx[2]", v.zxx()[2], v[0]);
    S::h_eq("zxy[0]", v.zxy()[0], v[2]);
    S::h_eq("zxy[1]", v.zxy()[1], v[0]);
    S::h_eq("zxy[2]", v.zxy()[2], v[1]);
    S::h_eq("zxz[0]", v.zxz()[0], v[2]);
    S::h_eq("zxz[1]", v.zxz()[1], v[0]);
    S::h_eq("zxz[2]", v.zxz()[2], v[2]);
    S::h_eq("zyx[0]", v.zyx()[0], v[2]);
    S::h_eq("zyx[1]", v.zyx()[1], v[1]);
    S::h_eq("zyx[2]", v.zyx()[2], v[0]);
    S::h_eq("zyy[0]", v.zyy()[0], v[2]);
    S::h_eq("zyy[1]", v.zyy()[1], v[1]);
    S::h_eq("zyy[2]", v.zyy()[2], v[1]);
    S::h_eq("zyz[0]", v.zyz()[0], v[2]);
    S::h_eq("zyz[1]", v.zyz()[1], v[1]);
    S::h_eq("zyz[2]", v.zyz()[2], v[2]);
    S::h_eq("zzx[0]", v.zzx()[0], v[2]);
    S::h_eq("zzx[1]", v.zzx()[1], v[2]);
    S::h_eq("zzx[2]", v.zzx()[2], v[0]);
    S::h_eq("zzy[0]", v.zzy()[0], v[2]);
    S::h_eq("zzy[1]", v.zzy()[1], v[2]);
    S::h_eq("zzy[2]", v.zzy()[2], v[1]);
    S::h_eq("zzz[0]", v.zzz()[0], v[2]);
    S::h_eq("zzz[1]", v.zzz()[1], v[2]);
    S::h_eq("zzz[2]", v.zzz()[2], v[2]);
}
fn swz_vector4<S: Scal>() {
    let v = vec::<S, 4>("v");
    S::h_eq("x[0]", v.x()[0], v[0]);
    S::h_eq("y[0]", v.y()[0], v[1]);
    S::h_eq("z[0]", v.z()[0], v[2]);
    S::h_eq("w[0]", v.w()[0], v[3]);
    S::h_eq("xx[0]", v.xx()[0], v[0]);
    S::h_eq("xx[1]", v.xx()[1], v[0]);
    S::h_eq("xy[0]", v.xy()[0], v[0]);
    S::h_eq("xy[1]", v.xy()[1], v[1]);
    S::h_eq("xz[0]", v.xz()[0], v[0]);
    S::h_eq("xz[1]", v.xz()[1], v[2]);
    S::h_eq("xw[0]", v.xw()[0], v[0]);
    S::h_eq("xw[1]", v.xw()[1], v[3]);
    S::h_eq("yx[0]", v.yx()[0], v[1]);
    S::h_eq("yx[1]", v.yx()[1], v[0]);
    S::h_eq("yy[0]", v.yy()[0], v[1]);
    S::h_eq("yy[1]", v.yy()[1], v[1]);
    S::h_eq("yz[0]", v.yz()[0], v[1]);
    S::h_eq("yz[1]", v.yz()[1], v[2]);
    S::h_eq("yw[0]", v.yw()[0], v[1]);
    S::h_eq("yw[1]", v.yw()[1], v[3]);
    S::h_eq("zx[0]", v.zx()[0], v[2]);
    S::h_eq("zx[1]", v.zx()[1], v[0]);
    S::h_eq("zy[0]", v.zy()[0], v[2]);
    S::h_eq("zy[1]", v.zy()[1], v[1]);
    S::h_eq("zz[0]", v.zz()[0], v[2]);
    S::h_eq("zz[1]", v.zz()[1], v[2]);
    S::h_eq("zw[0]", v.zw()[0], v[2]);
    S::h_eq("zw[1]", v.zw()[1], v[3]);
    S::h_eq("wx[0]", v.wx()[0], v[3]);
    S::h_eq("wx[1]", v.wx()[1], v[0]);
    S::h_eq("wy[0]", v.wy()[0], v[3]);
    S::h_eq("wy[1]", v.wy()[1], v[1]);
    S::h_eq("wz[0]", v.wz()[0], v[3]);
    S::h_eq("wz[1]", v.wz()[1], v[2]);
    S::h_eq("ww[0]", v.ww()[0], v[3]);
    S::h_eq("ww[1]", v.ww()[1], v[3]);
    S::h_eq("xxx[0]", v.xxx()[0], v[0]);
    S::h_eq("xxx[1]", v.xxx()[1], v[0]);
    S::h_eq("xxx[2]", v.xxx()[2], v[0]);
    S::h_eq("xxy[0]", v.xxy()[0], v[0]);
    S::h_eq("xxy[1]", v.xxy()[1], v[0]);
    S::h_eq("xxy[2]", v.xxy()[2], v[1]);
    S::h_eq("xxz[0]", v.xxz()[0], v[0]);
    S::h_eq("xxz[1]", v.xxz()[1], v[0]);
    S::h_eq("xxz[2]", v.xxz()[2], v[2]);
    S::h_eq("xxw[0]", v.xxw()[0], v[0]);
    S::h_eq("xxw[1]", v.xxw()[1], v[0]);
    S::h_eq("xxw[2]", v.xxw()[2], v[3]);
    S::h_eq("xyx[0]", v.xyx()[0], v[0]);
    S::h_eq("xyx[1]", v.xyx()[1], v[1]);
    S::h_eq("xyx[2]", v.xyx()[2], v[0]);
    S::h_eq("xyy[0]", v.xyy()[0], v[0]);
    S::h_eq("xyy[1]", v.xyy()[1], v[1]);
    S::h_eq("xyy[2]", v.xyy()[2], v[1]);
    S::h_eq("xyz[0]", v.xyz()[0], v[0]);
    S::h_eq("xyz[1]", v.xyz()[1], v[1]);
    S::h_eq("xyz[2]", v.xyz()[2], v[2]);
    S::h_eq("xyw[0]", v.xyw()[0], v[0]);
    S::h_eq("xyw[1]", v.xyw()[1], v[1]);
    S::h_eq("xyw[2]", v.xyw()[2], v[3]);
    S::h_eq("xzx[0]", v.xzx()[0], v[0]);
    S::h_eq("xzx[1]", v.xzx()[1], v[2]);
    S::h_eq("xzx[2]", v.xzx()[2], v[0]);
    S::h_eq("xzy[0]", v.xzy()[0], v[0]);
    S::h_eq("xzy[1]", v.xzy()[1], v[2]);
    S::h_eq("xzy[2]", v.xzy()[2], v[1]);
    S::h_eq("xzz[0]", v.xzz()[0], v[0]);
    S::h_eq("xzz[1]", v.xzz()[1], v[2]);
    S::h_eq("xzz[2]", v.xzz()[2], v[2]);
    S::h_eq("xzw[0]", v.xzw()[0], v[0]);
    S::h_eq("xzw[1]", v.xzw()[1], v[2]);
    S::h_eq("xzw[2]", v.xzw()[2], v[3]);
    S::h_eq("xwx[0]", v.xwx()[0], v[0]);
    S::h_eq("xwx[1]", v.xwx()[1], v[3]);
    S::h_eq("xwx[2]", v.xwx()[2], v[0]);
    S::h_eq("xwy[0]", v.xwy()[0], v[0]);
    S::h_eq("xwy[1]", v.xwy()[1], v[3]);
    S::h_eq("xwy[2]", v.xwy()[2], v[1]);
    S::h_eq("xwz[0]", v.xwz()[0], v[0]);
    S::h_eq("xwz[1]", v.xwz()[1], v[3]);
    S::h_eq("xwz[2]", v.xwz()[2], v[2]);
    S::h_eq("xww[0]", v.xww()[0], v[0]);
    S::h_eq("xww[1]", v.xww()[1], v[3]);
    S::h_eq("xww[2]", v.xww()[2], v[3]);
    S::h_eq("yxx[0]", v.yxx()[0], v[1]);
    S::h_eq("yxx[1]", v.yxx()[1], v[0]);
    S::h_eq("yxx[2]", v.yxx()[2], v[0]);
    S::h_eq("yxy[0]", v.yxy()[0], v[1]);
    S::h_eq("yxy[1]", v.yxy()[1], v[0]);
    S::h_eq("yxy[2]", v.yxy()[2], v[1]);
    S::h_eq("yxz[0]", v.yxz()[0], v[1]);
    S::h_eq("yxz[1]", v.yxz()[1], v[0]);
    S::h_eq("yxz[2]", v.yxz()[2], v[2]);
    S::h_eq("yxw[0]", v.yxw()[0], v[1]);
    S::h_eq("yxw[1]", v.yxw()[1], v[0]);
    S::h_eq("yxw[2]", v.yxw()[2], v[3]);
    S::h_eq("yyx[0]", v.yyx()[0], v[1]);
    S::h_eq("yyx[1]", v.yyx()[1], v[1]);
    S::h_eq("yyx[2]", v.yyx()[2], v[0]);
    S::h_eq("yyy[0]", v.yyy()[0], v[1]);
    S::h_eq("yyy[1]", v.yyy()[1], v[1]);
    S::h_eq("yyy[2]", v.yyy()[2], v[1]);
    S::h_eq("yyz[0]", v.yyz()[0], v[1]);
    S::h_eq("yyz[1]", v.yyz()[1], v[1]);
    S::h_eq("yyz[2]", v.yyz()[2], v[2]);
    S::h_eq("yyw[0]", v.yyw()[0], v[1]);
    S::h_eq("yyw[1]", v.yyw()[1], v[1]);
    S::h_eq("yyw[2]", v.yyw()[2], v[3]);
    S::h_eq("yzx[0]", v.yzx()[0], v[1]);
    S::h_eq("yzx[1]", v.yzx()[1], v[2]);
    S::h_eq("yzx[2]", v.yzx()[2], v[0]);
    S::h_eq("yzy[0]", v.yzy()[0], v[1]);
    S::h_eq("yzy[1]", v.yzy()[1], v[2]);
    S::h_eq("yzy[2]", v.yzy()[2], v[1]);
    S::h_eq("yzz[0]", v.yzz()[0], v[1]);
    S::h_eq("yzz[1]", v.yzz()[1], v[2]);
    S::h_eq("yzz[2]", v.yzz()[2], v[2]);
    S::h_eq("yzw[0]", v.yzw()[0], v[1]);
    S::h_eq("yzw[1]", v.yzw()[1], v[2]);
    S::h_eq("yzw[2]", v.yzw()[2], v[3]);
    S::h_eq("ywx[0]", v.ywx()[0], v[1]);
    S::h_eq("ywx[1]", v.ywx()[1], v[3]);
    S::h_eq("ywx[2]", v.ywx()[2], v[0]);
    S::h_eq("ywy[0]", v.ywy()[0], v[1]);
    S::h_eq("ywy[1]", v.ywy()[1], v[3]);
    S::h_eq("ywy[2]", v.ywy()[2], v[1]);
    S::h_eq("ywz[0]", v.ywz()[0], v[1]);
    S::h_eq("ywz[1]", v.ywz()[1], v[3]);
    S::h_eq("ywz[2]", v.ywz()[2], v[2]);
    S::h_eq("yww[0]", v.yww()[0], v[1]);
    S::h_eq("yww[1]", v.yww()[1], v[3]);
    S::h_eq("yww[2]", v.yww()[2], v[3]);
    S::h_eq("zxx[0]", v.zxx()[0], v[2]);
    S::h_eq("zxx[1]", v.zxx()[1], v[0]);
    S::h_eq("zxx[2]", v.zxx()[2], v[0]);
    S::h_eq("zxy[0]", v.zxy()[0], v[2]);
    S::h_eq("zxy[1]", v.zxy()[1], v[0]);
    S::h_eq("zxy[2]", v.zxy()[2], v[1]);
    S::h_eq("zxz[0]", v.zxz()[0], v[2]);
    S::h_eq("zxz[1]", v.zxz()[1], v[0]);
    S::h_eq("zxz[2]", v.zxz()[2], v[2]);
    S::h_eq("zxw[0]", v.zxw()[0], v[2]);
    S::h_eq("zxw[1]", v.zxw()[1], v[0]);
    S::h_eq("zxw[2]", v.zxw()[2], v[3]);
    S::h_eq("zyx[0]", v.zyx()[0], v[2]);
    S::h_eq("zyx[1]", v.zyx()[1], v[1]);
    S::h_eq("zyx[2]", v.zyx()[2], v[0]);
    S::h_eq("zyy[0]", v.zyy()[0], v[2]);
    S::h_eq("zyy[1]", v.zyy()[1], v[1]);
    S::h_eq("zyy[2]", v.zyy()[2], v[1]);
    S::h_eq("zyz[0]", v.zyz()[0], v[2]);
    S::h_eq("zyz[1]", v.zyz()[1], v[1]);
    S::h_eq("zyz[2]", v.zyz()[2], v[2]);
    S::h_eq("zyw[0]", v.zyw()[0], v[2]);
    S::h_eq("zyw[1]", v.zyw()[1], v[1]);
    S::h_eq("zyw[2]", v.zyw()[2], v[3]);
    S::h_eq("zzx[0]", v.zzx()[0], v[2]);
    S::h_eq("zzx[1]", v.zzx()[1], v[2]);
    S::h_eq("zzx[2]", v.zzx()[2], v[0]);
    S::h_eq("zzy[0]", v.zzy()[0], v[2]);
    S::h_eq("zzy[1]", v.zzy()[1], v[2]);
    S::h_eq("zzy[2]", v.zzy()[2], v[1]);
    S::h_eq("zzz[0]", v.zzz()[0], v[2]);
    S::h_eq("zzz[1]", v.zzz()[1], v[2]);
    S::h_eq("zzz[2]", v.zzz()[2], v[2]);
    S::h_eq("zzw[0]", v.zzw()[0], v[2]);
    S::h_eq("zzw[1]", v.zzw()[1], v[2]);
    S::h_eq("zzw[2]", v.zzw()[2], v[3]);
    S::h_eq("zwx[0]", v.zwx()[0], v[2]);
    S::h_eq("zwx[1]", v.zwx()[1], v[3]);
    S::h_eq("zwx[2]", v.zwx()[2], v[0]);
    S::h_eq("zwy[0]", v.zwy()[0], v[2]);
    S::h_eq("zwy[1]", v.zwy()[1], v[3]);
    S::h_eq("zwy[2]", v.zwy()[2], v[1]);
    S::h_eq("zwz[0]", v.zwz()[0], v[2]);
    S::h_eq("zwz[1]", v.zwz()[1], v[3]);
    S::h_eq("zwz[2]", v.zwz()[2], v[2]);
    S::h_eq("zww[0]", v.zww()[0], v[2]);
    S::h_eq("zww[1]", v.zww()[1], v[3]);
    S::h_eq("zww[2]", v.zww()[2], v[3]);
    S::h_eq("wxx[0]", v.wxx()[0], v[3]);
    S::h_eq("wxx[1]", v.wxx()[1], v[0]);
    S::h_eq("wxx[2]", v.wxx()[2], v[0]);
    S::h_eq("wxy[0]", v.wxy()[0], v[3]);
    S::h_eq("wxy[1]", v.wxy()[1], v[0]);
    S::h_eq("wxy[2]", v.wxy()[2], v[1]);
    S::h_eq("wxz[0]", v.wxz()[0], v[3]);
    S::h_eq("wxz[1]", v.wxz()[1], v[0]);
    S::h_eq("wxz[2]", v.wxz()[2], v[2]);
    S::h_eq("wxw[0]", v.wxw()[0], v[3]);
    S::h_eq("wxw[1]", v.wxw()[1], v[0]);
    S::h_eq("wxw[2]", v.wxw()[2], v[3]);
    S::h_eq("wyx[0]", v.wyx()[0], v[3]);
    S::h_eq("wyx[1]", v.wyx()[1], v[1]);
    S::h_eq("wyx[2]", v.wyx()[2], v[0]);
    S::h_eq("wyy[0]", v.wyy()[0], v[3]);
    S::h_eq("wyy[1]", v.wyy()[1], v[1]);
    S::h_eq("wyy[2]", v.wyy()[2], v[1]);
    S::h_eq("wyz[0]", v.wyz()[0], v[3]);
    S::h_eq("wyz[1]", v.wyz()[1], v[1]);
    S::h_eq("wyz[2]", v.wyz()[2], v[2]);
    S::h_eq("wyw[0]", v.wyw()[0], v[3]);
    S::h_eq("wyw[1]", v.wyw()[1], v[1]);
    S::h_eq("wyw[2]", v.wyw()[2], v[3]);
    S::h_eq("wzx[0]", v.wzx()[0], v[3]);
    S::h_eq("wzx[1]", v.wzx()[1], v[2]);
    S::h_eq("wzx[2]", v.wzx()[2], v[0]);
    S::h_eq("wzy[0]", v.wzy()[0], v[3]);
    S::h_eq("wzy[1]", v.wzy()[1], v[2]);
    S::h_eq("wzy[2]", v.wzy()[2], v[1]);
    S::h_eq("wzz[0]", v.wzz()[0], v[3]);
    S::h_eq("wzz[1]", v.wzz()[1], v[2]);
    S::h_eq("wzz[2]", v.wzz()[2], v[2]);
    S::h_eq("wzw[0]", v.wzw()[0], v[3]);
    S::h_eq("wzw[1]", v.wzw()[1], v[2]);
    S::h_eq("wzw[2]", v.wzw()[2], v[3]);
    S::h_eq("wwx[0]", v.wwx()[0], v[3]);
    S::h_eq("wwx[1]", v.wwx()[1], v[3]);
    S::h_eq("wwx[2]", v.wwx()[2], v[0]);
    S::h_eq("wwy[0]", v.wwy()[0], v[3]);
    S::h_eq("wwy[1]", v.wwy()[1], v[3]);
    S::h_eq("wwy[2]", v.wwy()[2], v[1]);
    S::h_eq("wwz[0]", v.wwz()[0], v[3]);
    S::h_eq("wwz[1]", v.wwz()[1], v[3]);
    S::h_eq("wwz[2]", v.wwz()[2], v[2]);
    S::h_eq("www[0]", v.www()[0], v[3]);
    S::h_eq("www[1]", v.www()[1], v[3]);
    S::h_eq("www[2]", v.www()[2], v[3]);
    S::h_eq("xxxx[0]", v.xxxx()[0], v[0]);
    S::h_eq("xxxx[1]", v.xxxx()[1], v[0]);
    S::h_eq("xxxx[2]", v.xxxx()[2], v[0]);
    S::h_eq("xxxx[3]", v.xxxx()[3], v[0]);
    S::h_eq("xxxy[0]", v.xxxy()[0], v[0]);
    S::h_eq("xxxy[1]", v.xxxy()[1], v[0]);
    S::h_eq("xxxy[2]", v.xxxy()[2], v[0]);
    S::h_eq("xxxy[3]", v.xxxy()[3], v[1]);
    S::h_eq("xxxz[0]", v.xxxz()[0], v[0]);
    S::h_eq("xxxz[1]", v.xxxz()[1], v[0]);
    S::h_eq("xxxz[2]", v.xxxz()[2], v[0]);
    S::h_eq("xxxz[3]", v.xxxz()[3], v[2]);
    S::h_eq("xxxw[0]", v.xxxw()[0], v[0]);
    S::h_eq("xxxw[1]", v.xxxw()[1], v[0]);
    S::h_eq("xxxw[2]", v.xxxw()[2], v[0]);
    S::h_eq("xxxw[3]", v.xxxw()[3], v[3]);
    S::h_eq("xxyx[0]", v.xxyx()[0], v[0]);
    S::h_eq("xxyx[1]", v.xxyx()[1], v[0]);
    S::h_eq("xxyx[2]", v.xxyx()[2], v[1]);
    S::h_eq("xxyx[3]", v.xxyx()[3], v[0]);
    S::h_eq("xxyy[0]", v.xxyy()[0], v[0]);
    S::h_eq("xxyy[1]", v.xxyy()[1], v[0]);
    S::h_eq("xxyy[2]", v.xxyy()[2], v[1]);
    S::h_eq("xxyy[3]", v.xxyy()[3], v[1]);
    S::h_eq("xxyz[0]", v.xxyz()[0], v[0]);
    S::h_eq("xxyz[1]", v.xxyz()[1], v[0]);
    S::h_eq("xxyz[2]", v.xxyz()[2], v[1]);
    S::h_eq("xxyz[3]", v.xxyz()[3], v[2]);
    S::h_eq("xxyw[0]", v.xxyw()[0], v[0]);
    S::h_eq("xxyw[1]", v.xxyw()[1], v[0]);
    S::h_eq("xxyw[2]", v.xxyw()[2], v[1]);
    S::h_eq("xxyw[3]", v.xxyw()[3], v[3]);
    S::h_eq("xxzx[0]", v.xxzx()[0], v[0]);
    S::h_eq("xxzx[1]", v.xxzx()[1], v[0]);
    S::h_eq("xxzx[2]", v.xxzx()[2], v[2]);
    S::h_eq("xxzx[3]", v.xxzx()[3], v[0]);
    S::h_eq("xxzy[0]", v.xxzy()[0], v[0]);
    S::h_eq("xxzy[1]", v.xxzy()[1], v[0]);
    S::h_eq("xxzy[2]", v.xxzy()[2], v[2]);
    S::h_eq("xxzy[3]", v.xxzy()[3], v[1]);
    S::h_eq("xxzz[0]", v.xxzz()[0], v[0]);
    S::h_eq("xxzz[1]", v.xxzz()[1], v[0]);
    S::h_eq("xxzz[2]", v.xxzz()[2], v[2]);
    S::h_eq("xxzz[3]", v.xxzz()[3], v[2]);
    S::h_eq("xxzw[0]", v.xxzw()[0], v[0]);
    S::h_eq("xxzw[1]", v.xxzw()[1], v[0]);
    S::h_eq("xxzw[2]", v.xxzw()[2], v[2]);
    S::h_eq("xxzw[3]", v.xxzw()[3], v[3]);
    S::h_eq("xxwx[0]", v.xxwx()[0], v[0]);
    S::h_eq("xxwx[1]", v.xxwx()[1], v[0]);
    S::h_eq("xxwx[2]", v.xxwx()[2], v[3]);
    S::h_eq("xxwx[3]", v.xxwx()[3], v[0]);
    S::h_eq("xxwy[0]", v.xxwy()[0], v[0]);
    S::h_eq("xxwy[1]", v.xxwy()[1], v[0]);
    S::h_eq("xxwy[2]", v.xxwy()[2], v[3]);
    S::h_eq("xxwy[3]", v.xxwy()[3], v[1]);
    S::h_eq("xxwz[0]", v.xxwz()[0], v[0]);
    S::h_eq("xxwz[1]", v.xxwz()[1], v[0]);
    S::h_eq("xxwz[2]", v.xxwz()[2], v[3]);
    S::h_eq("xxwz[3]", v.xxwz()[3], v[2]);
    S::h_eq("xxww[0]", v.xxww()[0], v[0]);
    S::h_eq("xxww[1]", v.xxww()[1], v[0]);
    S::h_eq("xxww[2]", v.xxww()[2], v[3]);
    S::h_eq("xxww[3]", v.xxww()[3], v[3]);
    S::h_eq("xyxx[0]", v.xyxx()[0], v[0]);
    S::h_eq("xyxx[1]", v.xyxx()[1], v[1]);
    S::h_eq("xyxx[2]", v.xyxx()[2], v[0]);
    S::h_eq("xyxx[3]", v.xyxx()[3], v[0]);
    S::h_eq("xyxy[0]", v.xyxy()[0], v[0]);
    S::h_eq("xyxy[1]", v.xyxy()[1], v[1]);
    S::h_eq("xyxy[2]", v.xyxy()[2], v[0]);
    S::h_eq("xyxy[3]", v.xyxy()[3], v[1]);
    S::h_eq("xyxz[0]", v.xyxz()[0], v[0]);
    S::h_eq("xyxz[1]", v.xyxz()[1], v[1]);
    S::h_eq("xyxz[2]", v.xyxz()[2], v[0]);
    S::h_eq("xyxz[3]", v.xyxz()[3], v[2]);
    S::h_eq("xyxw[0]", v.xyxw()[0], v[0]);
    S::h_eq("xyxw[1]", v.xyxw()[1], v[1]);
    S::h_eq("xyxw[2]", v.xyxw()[2], v[0]);
    S::h_eq("xyxw[3]", v.xyxw()[3], v[3]);
    S::h_eq("xyyx[0]", v.xyyx()[0], v[0]);
    S::h_eq("xyyx[1]", v.xyyx()[1], v[1]);
    S::h_eq("xyyx[2]", v.xyyx()[2], v[1]);
    S::h_eq("xyyx[3]", v.xyyx()[3], v[0]);
    S::h_eq("xyyy[0]", v.xyyy()[0], v[0]);
    S::h_eq("xyyy[1]", v.xyyy()[1], v[1]);
    S::h_eq("xyyy[2]", v.xyyy()[2], v[1]);
    S::h_eq("xyyy[3]", v.xyyy()[3], v[1]);
    S::h_eq("xyyz[0]", v.xyyz()[0], v[0]);
    S::h_eq("xyyz[1]", v.xyyz()[1], v[1]);
    S::h_eq("xyyz[2]", v.xyyz()[2], v[1]);
    S::h_eq("xyyz[3]", v.xyyz()[3], v[2]);
    S::h_eq("xyyw[0]", v.xyyw()[0], v[0]);
    S::h_eq("xyyw[1]", v.xyyw()[1], v[1]);
    S::h_eq("xyyw[2]", v.xyyw()[2], v[1]);
    S::h_eq("xyyw[3]", v.xyyw()[3], v[3]);
    S::h_eq("xyzx[0]", v.xyzx()[0], v[0]);
    S::h_eq("xyzx[1]", v.xyzx()[1], v[1]);
    S::h_eq("xyzx[2]", v.xyzx()[2], v[2]);
    S::h_eq("xyzx[3]", v.xyzx()[3], v[0]);
    S::h_eq("xyzy[0]", v.xyzy()[0], v[0]);
    S::h_eq("xyzy[1]", v.xyzy()[1], v[1]);
    S::h_eq("xyzy[2]", v.xyzy()[2], v[2]);
    S::h_eq("xyzy[3]", v.xyzy()[3], v[1]);
    S::h_eq("xyzz[0]", v.xyzz()[0], v[0]);
    S::h_eq("xyzz[1]", v.xyzz()[1], v[1]);
    S::h_eq("xyzz[2]", v.xyzz()[2], v[2]);
    S::h_eq("xyzz[3]", v.xyzz()[3], v[2]);
    S::h_eq("xyzw[0]", v.xyzw()[0], v[0]);
    S::h_eq("xyzw[1]", v.xyzw()[1], v[1]);
    S::h_eq("xyzw[2]", v.xyzw()[2], v[2]);
    S::h_eq("xyzw[3]", v.xyzw()[3], v[3]);
    S::h_eq("xywx[0]", v.xywx()[0], v[0]);
    S::h_eq("xywx[1]", v.xywx()[1], v[1]);
    S::h_eq("xywx[2]", v.xywx()[2], v[3]);
    S::h_eq("xywx[3]", v.xywx()[3], v[0]);
    S::h_eq("xywy[0]", v.xywy()[0], v[0]);
    S::h_eq("xywy[1]", v.xywy()[1], v[1]);
    S::h_eq("xywy[2]", v.xywy()[2], v[3]);
    S::h_eq("xywy[3]", v.xywy()[3], v[1]);
    S::h_eq("xywz[0]", v.xywz()[0], v[0]);
    S::h_eq("xywz[1]", v.xywz()[1], v[1]);
    S::h_eq("xywz[2]", v.xywz()[2], v[3]);
    S::h_eq("xywz[3]", v.xywz()[3], v[2]);
    S::h_eq("xyww[0]", v.xyww()[0], v[0]);
    S::h_eq("xyww[1]", v.xyww()[1], v[1]);
    S::h_eq("xyww[2]", v.xyww()[2], v[3]);
    S::h_eq("xyww[3]", v.xyww()[3], v[3]);
    S::h_eq("xzxx[0]", v.xzxx()[0], v[0]);
    S::h_eq("xzxx[1]", v.xzxx()[1], v[2]);
    S::h_eq("xzxx[2]", v.xzxx()[2], v[0]);
    S::h_eq("xzxx[3]", v.xzxx()[3], v[0]);
    S::h_eq("xzxy[0]", v.xzxy()[0], v[0]);
    S::h_eq("xzxy[1]", v.xzxy()[1], v[2]);
    S::h_eq("xzxy[2]", v.xzxy()[2], v[0]);
    S::h_eq("xzxy[3]", v.xzxy()[3], v[1]);
    S::h_eq("xzxz[0]", v.xzxz()[0], v[0]);
    S::h_eq("xzxz[1]", v.xzxz()[1], v[2]);
    S::h_eq("xzxz[2]", v.xzxz()[2], v[0]);
    S::h_eq("xzxz[3]", v.xzxz()[3], v[2]);
    S::h_eq("xzxw[0]", v.xzxw()[0], v[0]);
    S::h_eq("xzxw[1]", v.xzxw()[1], v[2]);
    S::h_eq("xzxw[2]", v.xzxw()[2], v[0]);
    S::h_eq("xzxw[3]", v.xzxw()[3], v[3]);
    S::h_eq("xzyx[0]", v.xzyx()[0], v[0]);
    S::h_eq("xzyx[1]", v.xzyx()[1], v[2]);
    S::h_eq("xzyx[2]", v.xzyx()[2], v[1]);
    S::h_eq("xzyx[3]", v.xzyx()[3], v[0]);
    S::h_eq("xzyy[0]", v.xzyy()[0], v[0]);
    S::h_eq("xzyy[1]", v.xzyy()[1], v[2]);
    S::h_eq("xzyy[2]", v.xzyy()[2], v[1]);
    S::h_eq("xzyy[3]", v.xzyy()[3], v[1]);
    S::h_eq("xzyz[0]", v.xzyz()[0], v[0]);
    S::h_eq("xzyz[1]", v.xzyz()[1], v[2]);
    S::h_eq("xzyz[2]", v.xzyz()[2], v[1]);
    S::h_eq("xzyz[3]", v.xzyz()[3], v[2]);
    S::h_eq("xzyw[0]", v.xzyw()[0], v[0]);
    S::h_eq("xzyw[1]", v.xzyw()[1], v[2]);
    S::h_eq("xzyw[2]", v.xzyw()[2], v[1]);
    S::h_eq("xzyw[3]", v.xzyw()[3], v[3]);
    S::h_eq("xzzx[0]", v.xzzx()[0], v[0]);
    S::h_eq("xzzx[1]", v.xzzx()[1], v[2]);
    S::h_eq("xzzx[2]", v.xzzx()[2], v[2]);
    S::h_eq("xzzx[3]", v.xzzx()[3], v[0]);
    S::h_eq("xzzy[0]", v.xzzy()[0], v[0]);
    S::h_eq("xzzy[1]", v.xzzy()[1], v[2]);
    S::h_eq("xzzy[2]", v.xzzy()[2], v[2]);
    S::h_eq("xzzy[3]", v.xzzy()[3], v[1]);
    S::h_eq("xzzz[0]", v.xzzz()[0], v[0]);
    S::h_eq("xzzz[1]", v.xzzz()[1], v[2]);
    S::h_eq("xzzz[2]", v.xzzz()[2], v[2]);
    S::h_eq("xzzz[3]", v.xzzz()[3], v[2]);
    S::h_eq("xzzw[0]", v.xzzw()[0], v[0]);
    S::h_eq("xzzw[1]", v.xzzw()[1], v[2]);
    S::h_eq("xzzw[2]", v.xzzw()[2], v[2]);
    S::h_eq("xzzw[3]", v.xzzw()[3], v[3]);
    S::h_eq("xzwx[0]", v.xzwx()[0], v[0]);
    S::h_eq("xzwx[1]", v.xzwx()[1], v[2]);
    S::h_eq("xzwx[2]", v.xzwx()[2], v[3]);
    S::h_eq("xzwx[3]", v.xzwx()[3], v[0]);
    S::h_eq("xzwy[0]", v.xzwy()[0], v[0]);
    S::h_eq("xzwy[1]", v.xzwy()[1], v[2]);
    S::h_eq("xzwy[2]", v.xzwy()[2], v[3]);
    S::h_eq("xzwy[3]", v.xzwy()[3], v[1]);
    S::h_eq("xzwz[0]", v.xzwz()[0], v[0]);
    S::h_eq("xzwz[1]", v.xzwz()[1], v[2]);
    S::h_eq("xzwz[2]", v.xzwz()[2], v[3]);
    S::h_eq("xzwz[3]", v.xzwz()[3], v[2]);
    S::h_eq("xzww[0]", v.xzww()[0], v[0]);
    S::h_eq("xzww[1]", v.xzww()[1], v[2]);
    S::h_eq("xzww[2]", v.xzww()[2], v[3]);
    S::h_eq("xzww[3]", v.xzww()[3], v[3]);
    S::h_eq("xwxx[0]", v.xwxx()[0], v[0]);
    S::h_eq("xwxx[1]", v.xwxx()[1], v[3]);
    S::h_eq("xwxx[2]", v.xwxx()[2], v[0]);
    S::h_eq("xwxx[3]", v.xwxx()[3], v[0]);
    S::h_eq("xwxy[0]", v.xwxy()[0], v[0]);
    S::h_eq("xwxy[1]", v.xwxy()[1], v[3]);
    S::h_eq("xwxy[2]", v.xwxy()[2], v[0]);
    S::h_eq("xwxy[3]", v.xwxy()[3], v[1]);
    S::h_eq("xwxz[0]", v.xwxz()[0], v[0]);
    S::h_eq("xwxz[1]", v.xwxz()[1], v[3]);
    S::h_eq("xwxz[2]", v.xwxz()[2], v[0]);
    S::h_eq("xwxz[3]", v.xwxz()[3], v[2]);
    S::h_eq("xwxw[0]", v.xwxw()[0], v[0]);
    S::h_eq("xwxw[1]", v.xwxw()[1], v[3]);
    S::h_eq("xwxw[2]", v.xwxw()[2], v[0]);
    S::h_eq("xwxw[3]", v.xwxw()[3], v[3]);
    S::h_eq("xwyx[0]", v.xwyx()[0], v[0]);
    S::h_eq("xwyx[1]", v.xwyx()[1], v[3]);
    S::h_eq("xwyx[2]", v.xwyx()[2], v[1]);
    S::h_eq("xwyx[3]", v.xwyx()[3], v[0]);
    S::h_eq("xwyy[0]", v.xwyy()[0], v[0]);
    S::h_eq("xwyy[1]", v.xwyy()[1], v[3]);
    S::h_eq("xwyy[2]", v.xwyy()[2], v[1]);
    S::h_eq("xwyy[3]", v.xwyy()[3], v[1]);
    S::h_eq("xwyz[0]", v.xwyz()[0], v[0]);
    S::h_eq("xwyz[1]", v.xwyz()[1], v[3]);
    S::h_eq("xwyz[2]", v.xwyz()[2], v[1]);
    S::h_eq("xwyz[3]", v.xwyz()[3], v[2]);
    S::h_eq("xwyw[0]", v.xwyw()[0], v[0]);
    S::h_eq("xwyw[1]", v.xwyw()[1], v[3]);
    S::h_eq("xwyw[2]", v.xwyw()[2], v[1]);
    S::h_eq("xwyw[3]", v.xwyw()[3], v[3]);
    S::h_eq("xwzx[0]", v.xwzx()[0], v[0]);
    S::h_eq("xwzx[1]", v.xwzx()[1], v[3]);
    S::h_eq("xwzx[2]", v.xwzx()[2], v[2]);
    S::h_eq("xwzx[3]", v.xwzx()[3], v[0]);
    S::h_eq("xwzy[0]", v.xwzy()[0], v[0]);
    S::h_eq("xwzy[1]", v.xwzy()[1], v[3]);
    S::h_eq("xwzy[2]", v.xwzy()[2], v[2]);
    S::h_eq("xwzy[3]", v.xwzy()[3], v[1]);
    S::h_eq("xwzz[0]", v.xwzz()[0], v[0]);
    S::h_eq("xwzz[1]", v.xwzz()[1], v[3]);
    S::h_eq("xwzz[2]", v.xwzz()[2], v[2]);
    S::h_eq("xwzz[3]", v.xwzz()[3], v[2]);
    S::h_eq("xwzw[0]", v.xwzw()[0], v[0]);
    S::h_eq("xwzw[1]", v.xwzw()[1], v[3]);
    S::h_eq("xwzw[2]", v.xwzw()[2], v[2]);
    S::h_eq("xwzw[3]", v.xwzw()[3], v[3]);
    S::h_eq("xwwx[0]", v.xwwx()[0], v[0]);
    S::h_eq("xwwx[1]", v.xwwx()[1], v[3]);
    S::h_eq("xwwx[2]", v.xwwx()[2], v[3]);
    S::h_eq("xwwx[3]", v.xwwx()[3], v[0]);
    S::h_eq("xwwy[0]", v.xwwy()[0], v[0]);
    S::h_eq("xwwy[1]", v.xwwy()[1], v[3]);
    S::h_eq("xwwy[2]", v.xwwy()[2], v[3]);
    S::h_eq("xwwy[3]", v.xwwy()[3], v[1]);
    S::h_eq("xwwz[0]", v.xwwz()[0], v[0]);
    S::h_eq("xwwz[1]", v.xwwz()[1], v[3]);
    S::h_eq("xwwz[2]", v.xwwz()[2], v[3]);
    S::h_eq("xwwz[3]", v.xwwz()[3], v[2]);
    S::h_eq("xwww[0]", v.xwww()[0], v[0]);
    S::h_eq("xwww[1]", v.xwww()[1], v[3]);
    S::h_eq("xwww[2]", v.xwww()[2], v[3]);
    S::h_eq("xwww[3]", v.xwww()[3], v[3]);
    S::h_eq("yxxx[0]", v.yxxx()[0], v[1]);
    S::h_eq("yxxx[1]", v.yxxx()[1], v[0]);
    S::h_eq("yxxx[2]", v.yxxx()[2], v[0]);
    S::h_eq("yxxx[3]", v.yxxx()[3], v[0]);
    S::h_eq("yxxy[0]", v.yxxy()[0], v[1]);
    S::h_eq("yxxy[1]", v.yxxy()[1], v[0]);
    S::h_eq("yxxy[2]", v.yxxy()[2], v[0]);
    S::h_eq("yxxy[3]", v.yxxy()[3], v[1]);
    S::h_eq("yxxz[0]", v.yxxz()[0], v[1]);
    S::h_eq("yxxz[1]", v.yxxz()[1], v[0]);
    S::h_eq("yxxz[2]", v.yxxz()[2], v[0]);
    S::h_eq("yxxz[3]", v.yxxz()[3], v[2]);
    S::h_eq("yxxw[0]", v.yxxw()[0], v[1]);
    S::h_eq("yxxw[1]", v.yxxw()[1], v[0]);
    S::h_eq("yxxw[2]", v.yxxw()[2], v[0]);
    S::h_eq("yxxw[3]", v.yxxw()[3], v[3]);
    S::h_eq("yxyx[0]", v.yxyx()[0], v[1]);
    S::h_eq("yxyx[1]", v.yxyx()[1], v[0]);
    S::h_eq("yxyx[2]", v.yxyx()[2], v[1]);
    S::h_eq("yxyx[3]", v.yxyx()[3], v[0]);
    S::h_eq("yxyy[0]", v.yxyy()[0], v[1]);
    S::h_eq("yxyy[1]", v.yxyy()[1], v[0]);
    S::h_eq("yxyy[2]", v.yxyy()[2], v[1]);
    S::h_eq("yxyy[3]", v.yxyy()[3], v[1]);
    S::h_eq("yxyz[0]", v.yxyz()[0], v[1]);
    S::h_eq("yxyz[1]", v.yxyz()[1], v[0]);
    S::h_eq("yxyz[2]", v.yxyz()[2], v[1]);
    S::h_eq("yxyz[3]", v.yxyz()[3], v[2]);
    S::h_eq("yxyw[0]", v.yxyw()[0], v[1]);
    S::h_eq("yxyw[1]", v.yxyw()[1], v[0]);
    S::h_eq("yxyw[2]", v.yxyw()[2], v[1]);
    S::h_eq("yxyw[3]", v.yxyw()[3], v[3]);
    S::h_eq("yxzx[0]", v.yxzx()[0], v[1]);
    S::h_eq("yxzx[1]", v.yxzx()[1], v[0]);
    S::h_eq("yxzx[2]", v.yxzx()[2], v[2]);
    S::h_eq("yxzx[3]", v.yxzx()[3], v[0]);
    S::h_eq("yxzy[0]", v.yxzy()[0], v[1]);
    S::h_eq("yxzy[1]", v.yxzy()[1], v[0]);
    S::h_eq("yxzy[2]", v.yxzy()[2], v[2]);
    S::h_eq("yxzy[3]", v.yxzy()[3], v[1]);
    S::h_eq("yxzz[0]", v.yxzz()[0], v[1]);
    S::h_eq("yxzz[1]", v.yxzz()[1], v[0]);
    S::h_eq("yxzz[2]", v.yxzz()[2], v[2]);
    S::h_eq("yxzz[3]", v.yxzz()[3], v[2]);
    S::h_eq("yxzw[0]", v.yxzw()[0], v[1]);
    S::h_eq("yxzw[1]", v.yxzw()[1], v[0]);
    S::h_eq("yxzw[2]", v.yxzw()[2], v[2]);
    S::h_eq("yxzw[3]", v.yxzw()[3], v[3]);
    S::h_eq("yxwx[0]", v.yxwx()[0], v[1]);
    S::h_eq("yxwx[1]", v.yxwx()[1], v[0]);
    S::h_eq("yxwx[2]", v.yxwx()[2], v[3]);
    S::h_eq("yxwx[3]", v.yxwx()[3], v[0]);
    S::h_eq("yxwy[0]", v.yxwy()[0], v[1]);
    S::h_eq("yxwy[1]", v.yxwy()[1], v[0]);
    S::h_eq("yxwy[2]", v.yxwy()[2], v[3]);
    S::h_eq("yxwy[3]", v.yxwy()[3], v[1]);
    S::h_eq("yxwz[0]", v.yxwz()[0], v[1]);
    S::h_eq("yxwz[1]", v.yxwz()[1], v[0]);
    S::h_eq("yxwz[2]", v.yxwz()[2], v[3]);
    S::h_eq("yxwz[3]", v.yxwz()[3], v[2]);
    S::h_eq("yxww[0]", v.yxww()[0], v[1]);
    S::h_eq("yxww[1]", v.yxww()[1], v[0]);
    S::h_eq("yxww[2]", v.yxww()[2], v[3]);
    S::h_eq("yxww[3]", v.yxww()[3], v[3]);
    S::h_eq("yyxx[0]", v.yyxx()[0], v[1]);
    S::h_eq("yyxx[1]", v.yyxx()[1], v[1]);
    S::h_eq("yyxx[2]", v.yyxx()[2], v[0]);
    S::h_eq("yyxx[3]", v.yyxx()[3], v[0]);
    S::h_eq("yyxy[0]", v.yyxy()[0], v[1]);
    S::h_eq("yyxy[1]", v.yyxy()[1], v[1]);
    S::h_eq("yyxy[2]", v.yyxy()[2], v[0]);
    S::h_eq("yyxy[3]", v.yyxy()[3], v[1]);
    S::h_eq("yyxz[0]", v.yyxz()[0], v[1]);
    S::h_eq("yyxz[1]", v.yyxz()[1], v[1]);
    S::h_eq("yyxz[2]", v.yyxz()[2], v[0]);
    S::h_eq("yyxz[3]", v.yyxz()[3], v[2]);
    S::h_eq("yyxw[0]", v.yyxw()[0], v[1]);
    S::h_eq("yyxw[1]", v.yyxw()[1], v[1]);
    S::h_eq("yyxw[2]", v.yyxw()[2], v[0]);
    S::h_eq("yyxw[3]", v.yyxw()[3], v[3]);
    S::h_eq("yyyx[0]", v.yyyx()[0], v[1]);
    S::h_eq("yyyx[1]", v.yyyx()[1], v[1]);
    S::h_eq("yyyx[2]", v.yyyx()[2], v[1]);
    S::h_eq("yyyx[3]", v.yyyx()[3], v[0]);
    S::h_eq("yyyy[0]", v.yyyy()[0], v[1]);
    S::h_eq("yyyy[1]", v.yyyy()[1], v[1]);
    S::h_eq("yyyy[2]", v.yyyy()[2], v[1]);
    S::h_eq("yyyy[3]", v.yyyy()[3], v[1]);
    S::h_eq("yyyz[0]", v.yyyz()[0], v[1]);
    S::h_eq("yyyz[1]", v.yyyz()[1], v[1]);
    S::h_eq("yyyz[2]", v.yyyz()[2], v[1]);
    S::h_eq("yyyz[3]", v.yyyz()[3], v[2]);
    S::h_eq("yyyw[0]", v.yyyw()[0], v[1]);
    S::h_eq("yyyw[1]", v.yyyw()[1], v[1]);
    S::h_eq("yyyw[2]", v.yyyw()[2], v[1]);
    S::h_eq("yyyw[3]", v.yyyw()[3], v[3]);
    S::h_eq("yyzx[0]", v.yyzx()[0], v[1]);
    S::h_eq("yyzx[1]", v.yyzx()[1], v[1]);
    S::h_eq("yyzx[2]", v.yyzx()[2], v[2]);
    S::h_eq("yyzx[3]", v.yyzx()[3], v[0]);
    S::h_eq("yyzy[0]", v.yyzy()[0], v[1]);
    S::h_eq("yyzy[1]", v.yyzy()[1], v[1]);
    S::h_eq("yyzy[2]", v.yyzy()[2], v[2]);
    S::h_eq("yyzy[3]", v.yyzy()[3], v[1]);
    S::h_eq("yyzz[0]", v.yyzz()[0], v[1]);
    S::h_eq("yyzz[1]", v.yyzz()[1], v[1]);
    S::h_eq("yyzz[2]", v.yyzz()[2], v[2]);
    S::h_eq("yyzz[3]", v.yyzz()[3], v[2]);
    S::h_eq("yyzw[0]", v.yyzw()[0], v[1]);
    S::h_eq("yyzw[1]", v.yyzw()[1], v[1]);
    S::h_eq("yyzw[2]", v.yyzw()[2], v[2]);
    S::h_eq("yyzw[3]", v.yyzw()[3], v[3]);
    S::h_eq("yywx[0]", v.yywx()[0], v[1]);
    S::h_eq("yywx[1]", v.yywx()[1], v[1]);
    S::h_eq("yywx[2]", v.yywx()[2], v[3]);
    S::h_eq("yywx[3]", v.yywx()[3], v[0]);
    S::h_eq("yywy[0]", v.yywy()[0], v[1]);
    S::h_eq("yywy[1]", v.yywy()[1], v[1]);
    S::h_eq("yywy[2]", v.yywy()[2], v[3]);
    S::h_eq("yywy[3]", v.yywy()[3], v[1]);
    S::h_eq("yywz[0]", v.yywz()[0], v[1]);
    S::h_eq("yywz[1]", v.yywz()[1], v[1]);
    S::h_eq("yywz[2]", v.yywz()[2], v[3]);
    S::h_eq("yywz[3]", v.yywz()[3], v[2]);
    S::h_eq("yyww[0]", v.yyww()[0], v[1]);
    S::h_eq("yyww[1]", v.yyww()[1], v[1]);
    S::h_eq("yyww[2]", v.yyww()[2], v[3]);
    S::h_eq("yyww[3]", v.yyww()[3], v[3]);
    S::h_eq("yzxx[0]", v.yzxx()[0], v[1]);
    S::h_eq("yzxx[1]", v.yzxx()[1], v[2]);
    S::h_eq("yzxx[2]", v.yzxx()[2], v[0]);
    S::h_eq("yzxx[3]", v.yzxx()[3], v[0]);
    S::h_eq("yzxy[0]", v.yzxy()[0], v[1]);
    S::h_eq("yzxy[1]", v.yzxy()[1], v[2]);
    S::h_eq("yzxy[2]", v.yzxy()[2], v[0]);
    S::h_eq("yzxy[3]", v.yzxy()[3], v[1]);
    S::h_eq("yzxz[0]", v.yzxz()[0], v[1]);
    S::h_eq("yzxz[1]", v.yzxz()[1], v[2]);
    S::h_eq("yzxz[2]", v.yzxz()[2], v[0]);
    S::h_eq("yzxz[3]", v.yzxz()[3], v[2]);
    S::h_eq("yzxw[0]", v.yzxw()[0], v[1]);
    S::h_eq("yzxw[1]", v.yzxw()[1], v[2]);
    S::h_eq("yzxw[2]", v.yzxw()[2], v[0]);
    S::h_eq("yzxw[3]", v.yzxw()[3], v[3]);
    S::h_eq("yzyx[0]", v.yzyx()[0], v[1]);
    S::h_eq("yzyx[1]", v.yzyx()[1], v[2]);
    S::h_eq("yzyx[2]", v.yzyx()[2], v[1]);
    S::h_eq("yzyx[3]", v.yzyx()[3], v[0]);
    S::h_eq("yzyy[0]", v.yzyy()[0], v[1]);
    S::h_eq("yzyy[1]", v.yzyy()[1], v[2]);
    S::h_eq("yzyy[2]", v.yzyy()[2], v[1]);
    S::h_eq("yzyy[3]", v.yzyy()[3], v[1]);
    S::h_eq("yzyz[0]", v.yzyz()[0], v[1]);
    S::h_eq("yzyz[1]", v.yzyz()[1], v[2]);
    S::h_eq("yzyz[2]", v.yzyz()[2], v[1]);
    S::h_eq("yzyz[3]", v.yzyz()[3], v[2]);
    S::h_eq("yzyw[0]", v.yzyw()[0], v[1]);
    S::h_eq("yzyw[1]", v.yzyw()[1], v[2]);
    S::h_eq("yzyw[2]", v.yzyw()[2], v[1]);
    S::h_eq("yzyw[3]", v.yzyw()[3], v[3]);
    S::h_eq("yzzx[0]", v.yzzx()[0], v[1]);
    S::h_eq("yzzx[1]", v.yzzx()[1], v[2]);
    S::h_eq("yzzx[2]", v.yzzx()[2], v[2]);
    S::h_eq("yzzx[3]", v.yzzx()[3], v[0]);
    S::h_eq("yzzy[0]", v.yzzy()[0], v[1]);
    S::h_eq("yzzy[1]", v.yzzy()[1], v[2]);
    S::h_eq("yzzy[2]", v.yzzy()[2], v[2]);
    S::h_eq("yzzy[3]", v.yzzy()[3], v[1]);
    S::h_eq("yzzz[0]", v.yzzz()[0], v[1]);
    S::h_eq("yzzz[1]", v.yzzz()[1], v[2]);
    S::h_eq("yzzz[2]", v.yzzz()[2], v[2]);
    S::h_eq("yzzz[3]", v.yzzz()[3], v[2]);
    S::h_eq("yzzw[0]", v.yzzw()[0], v[1]);
    S::h_eq("yzzw[1]", v.yzzw()[1], v[2]);
    S::h_eq("yzzw[2]", v.yzzw()[2], v[2]);
    S::h_eq("yzzw[3]", v.yzzw()[3], v[3]);
    S::h_eq("yzwx[0]", v.yzwx()[0], v[1]);
    S::h_eq("yzwx[1]", v.yzwx()[1], v[2]);
    S::h_eq("yzwx[2]", v.yzwx()[2], v[3]);
    S::h_eq("yzwx[3]", v.yzwx()[3], v[0]);
    S::h_eq("yzwy[0]", v.yzwy()[0], v[1]);
    S::h_eq("yzwy[1]", v.yzwy()[1], v[2]);
    S::h_eq("yzwy[2]", v.yzwy()[2], v[3]);
    S::h_eq("yzwy[3]", v.yzwy()[3], v[1]);
    S::h_eq("yzwz[0]", v.yzwz()[0], v[1]);
    S::h_eq("yzwz[1]", v.yzwz()[1], v[2]);
    S::h_eq("yzwz[2]", v.yzwz()[2], v[3]);
    S::h_eq("yzwz[3]", v.yzwz()[3], v[2]);
    S::h_eq("yzww[0]", v.yzww()[0], v[1]);
    S::h_eq("yzww[1]", v.yzww()[1], v[2]);
    S::h_eq("yzww[2]", v.yzww()[2], v[3]);
    S::h_eq("yzww[3]", v.yzww()[3], v[3]);
    S::h_eq("ywxx[0]", v.ywxx()[0], v[1]);
    S::h_eq("ywxx[1]", v.ywxx()[1], v[3]);
    S::h_eq("ywxx[2]", v.ywxx()[2], v[0]);
    S::h_eq("ywxx[3]", v.ywxx()[3], v[0]);
    S::h_eq("ywxy[0]", v.ywxy()[0], v[1]);
    S::h_eq("ywxy[1]", v.ywxy()[1], v[3]);
    S::h_eq("ywxy[2]", v.ywxy()[2], v[0]);
    S::h_eq("ywxy[3]", v.ywxy()[3], v[1]);
    S::h_eq("ywxz[0]", v.ywxz()[0], v[1]);
    S::h_eq("ywxz[1]", v.ywxz()[1], v[3]);
    S::h_eq("ywxz[2]", v.ywxz()[2], v[0]);
    S::h_eq("ywxz[3]", v.ywxz()[3], v[2]);
    S::h_eq("ywxw[0]", v.ywxw()[0], v[1]);
    S::h_eq("ywxw[1]", v.ywxw()[1], v[3]);
    S::h_eq("ywxw[2]", v.ywxw()[2], v[0]);
    S::h_eq("ywxw[3]", v.ywxw()[3], v[3]);
    S::h_eq("ywyx[0]", v.ywyx()[0], v[1]);
    S::h_eq("ywyx[1]", v.ywyx()[1], v[3]);
    S::h_eq("ywyx[2]", v.ywyx()[2], v[1]);
    S::h_eq("ywyx[3]", v.ywyx()[3], v[0]);
    S::h_eq("ywyy[0]", v.ywyy()[0], v[1]);
    S::h_eq("ywyy[1]", v.ywyy()[1], v[3]);
    S::h_eq("ywyy[2]", v.ywyy()[2], v[1]);
    S::h_eq("ywyy[3]", v.ywyy()[3], v[1]);
    S::h_eq("ywyz[0]", v.ywyz()[0], v[1]);
    S::h_eq("ywyz[1]", v.ywyz()[1], v[3]);
    S::h_eq("ywyz[2]", v.ywyz()[2], v[1]);
    S::h_eq("ywyz[3]", v.ywyz()[3], v[2]);
    S::h_eq("ywyw[0]", v.ywyw()[0], v[1]);
    S::h_eq("ywyw[1]", v.ywyw()[1], v[3]);
    S::h_eq("ywyw[2]", v.ywyw()[2], v[1]);
    S::h_eq("ywyw[3]", v.ywyw()[3], v[3]);
    S::h_eq("ywzx[0]", v.ywzx()[0], v[1]);
    S::h_eq("ywzx[1]", v.ywzx()[1], v[3]);
    S::h_eq("ywzx[2]", v.ywzx()[2], v[2]);
    S::h_eq("ywzx[3]", v.ywzx()[3], v[0]);
    S::h_eq("ywzy[0]", v.ywzy()[0], v[1]);
    S::h_eq("ywzy[1]", v.ywzy()[1], v[3]);
    S::h_eq("ywzy[2]", v.ywzy()[2], v[2]);
    S::h_eq("ywzy[3]", v.ywzy()[3], v[1]);
    S::h_eq("ywzz[0]", v.ywzz()[0], v[1]);
    S::h_eq("ywzz[1]", v.ywzz()[1], v[3]);
    S::h_eq("ywzz[2]", v.ywzz()[2], v[2]);
    S::h_eq("ywzz[3]", v.ywzz()[3], v[2]);
    S::h_eq("ywzw[0]", v.ywzw()[0], v[1]);
    S::h_eq("ywzw[1]", v.ywzw()[1], v[3]);
    S::h_eq("ywzw[2]", v.ywzw()[2], v[2]);
    S::h_eq("ywzw[3]", v.ywzw()[3], v[3]);
    S::h_eq("ywwx[0]", v.ywwx()[0], v[1]);
    S::h_eq("ywwx[1]", v.ywwx()[1], v[3]);
    S::h_eq("ywwx[2]", v.ywwx()[2], v[3]);
    S::h_eq("ywwx[3]", v.ywwx()[3], v[0]);
    S::h_eq("ywwy[0]", v.ywwy()[0], v[1]);
    S::h_eq("ywwy[1]", v.ywwy()[1], v[3]);
    S::h_eq("ywwy[2]", v.ywwy()[2], v[3]);
    S::h_eq("ywwy[3]", v.ywwy()[3], v[1]);
    S::h_eq("ywwz[0]", v.ywwz()[0], v[1]);
    S::h_eq("ywwz[1]", v.ywwz()[1], v[3]);
    S::h_eq("ywwz[2]", v.ywwz()[2], v[3]);
    S::h_eq("ywwz[3]", v.ywwz()[3], v[2]);
    S::h_eq("ywww[0]", v.ywww()[0], v[1]);
    S::h_eq("ywww[1]", v.ywww()[1], v[3]);
    S::h_eq("ywww[2]", v.ywww()[2], v[3]);
    S::h_eq("ywww[3]", v.ywww()[3], v[3]);
    S::h_eq("zxxx[0]", v.zxxx()[0], v[2]);
    S::h_eq("zxxx[1]", v.zxxx()[1], v[0]);
    S::h_eq("zxxx[2]", v.zxxx()[2], v[0]);
    S::h_eq("zxxx[3]", v.zxxx()[3], v[0]);
    S::h_eq("zxxy[0]", v.zxxy()[0], v[2]);
    S::h_eq("zxxy[1]", v.zxxy()[1], v[0]);
    S::h_eq("zxxy[2]", v.zxxy()[2], v[0]);
    S::h_eq("zxxy[3]", v.zxxy()[3], v[1]);
    S::h_eq("zxxz[0]", v.zxxz()[0], v[2]);
    S::h_eq("zxxz[1]", v.zxxz()[1], v[0]);
    S::h_eq("zxxz[2]", v.zxxz()[2], v[0]);
    S::h_eq("zxxz[3]", v.zxxz()[3], v[2]);
    S::h_eq("zxxw[0]", v.zxxw()[0], v[2]);
    S::h_eq("zxxw[1]", v.zxxw()[1], v[0]);
    S::h_eq("zxxw[2]", v.zxxw()[2], v[0]);
    S::h_eq("zxxw[3]", v.zxxw()[3], v[3]);
    S::h_eq("zxyx[0]", v.zxyx()[0], v[2]);
    S::h_eq("zxyx[1]", v.zxyx()[1], v[0]);
    S::h_eq("zxyx[2]", v.zxyx()[2], v[1]);
    S::h_eq("zxyx[3]", v.zxyx()[3], v[0]);
    S::h_eq("zxyy[0]", v.zxyy()[0], v[2]);
    S::h_eq("zxyy[1]", v.zxyy()[1], v[0]);
    S::h_eq("zxyy[2]", v.zxyy()[2], v[1]);
    S::h_eq("zxyy[3]", v.zxyy()[3], v[1]);
    S::h_eq("zxyz[0]", v.zxyz()[0], v[2]);
    S::h_eq("zxyz[1]", v.zxyz()[1], v[0]);
    S::h_eq("zxyz[2]", v.zxyz()[2], v[1]);
    S::h_eq("zxyz[3]", v.zxyz()[3], v[2]);
    S::h_eq("zxyw[0]", v.zxyw()[0], v[2]);
    S::h_eq("zxyw[1]", v.zxyw()[1], v[0]);
    S::h_eq("zxyw[2]", v.zxyw()[2], v[1]);
    S::h_eq("zxyw[3]", v.zxyw()[3], v[3]);
    S::h_eq("zxzx[0]", v.zxzx()[0], v[2]);
    S::h_eq("zxzx[1]", v.zxzx()[1], v[0]);
    S::h_eq("zxzx[2]", v.zxzx()[2], v[2]);
    S::h_eq("zxzx[3]", v.zxzx()[3], v[0]);
    S::h_eq("zxzy[0]", v.zxzy()[0], v[2]);
    S::h_eq("zxzy[1]", v.zxzy()[1], v[0]);
    S::h_eq("zxzy[2]", v.zxzy()[2], v[2]);
    S::h_eq("zxzy[3]", v.zxzy()[3], v[1]);
    S::h_eq("zxzz[0]", v.zxzz()[0], v[2]);
    S::h_eq("zxzz[1]", v.zxzz()[1], v[0]);
    S::h_eq("zxzz[2]", v.zxzz()[2], v[2]);
    S::h_eq("zxzz[3]", v.zxzz()[3], v[2]);
    S::h_eq("zxzw[0]", v.zxzw()[0], v[2]);
    S::h_eq("zxzw[1]", v.zxzw()[1], v[0]);
    S::h_eq("zxzw[2]", v.zxzw()[2], v[2]);
    S::h_eq("zxzw[3]", v.zxzw()[3], v[3]);
    S::h_eq("zxwx[0]", v.zxwx()[0], v[2]);
    S::h_eq("zxwx[1]", v.zxwx()[1], v[0]);
    S::h_eq("zxwx[2]", v.zxwx()[2], v[3]);
    S::h_eq("zxwx[3]", v.zxwx()[3], v[0]);
    S::h_eq("zxwy[0]", v.zxwy()[0], v[2]);
    S::h_eq("zxwy[1]", v.zxwy()[1], v[0]);
    S::h_eq("zxwy[2]", v.zxwy()[2], v[3]);
    S::h_eq("zxwy[3]", v.zxwy()[3], v[1]);
    S::h_eq("zxwz[0]", v.zxwz()[0], v[2]);
    S::h_eq("zxwz[1]", v.zxwz()[1], v[0]);
    S::h_eq("zxwz[2]", v.zxwz()[2], v[3]);
    S::h_eq("zxwz[3]", v.zxwz()[3], v[2]);
    S::h_eq("zxww[0]", v.zxww()[0], v[2]);
    S::h_eq("zxww[1]", v.zxww()[1], v[0]);
    S::h_eq("zxww[2]", v.zxww()[2], v[3]);
    S::h_eq("zxww[3]", v.zxww()[3], v[3]);
    S::h_eq("zyxx[0]", v.zyxx()[0], v[2]);
    S::h_eq("zyxx[1]", v.zyxx()[1], v[1]);
    S::h_eq("zyxx[2]", v.zyxx()[2], v[0]);
    S::h_eq("zyxx[3]", v.zyxx()[3], v[0]);
    S::h_eq("zyxy[0]", v.zyxy()[0], v[2]);
    S::h_eq("zyxy[1]", v.zyxy()[1], v[1]);
    S::h_eq("zyxy[2]", v.zyxy()[2], v[0]);
    S::h_eq("zyxy[3]", v.zyxy()[3], v[1]);
    S::h_eq("zyxz[0]", v.zyxz()[0], v[2]);
    S::h_eq("zyxz[1]", v.zyxz()[1], v[1]);
    S::h_eq("zyxz[2]", v.zyxz()[2], v[0]);
    S::h_eq("zyxz[3]", v.zyxz()[3], v[2]);
    S::h_eq("zyxw[0]", v.zyxw()[0], v[2]);
    S::h_eq("zyxw[1]", v.zyxw()[1], v[1]);
    S::h_eq("zyxw[2]", v.zyxw()[2], v[0]);
    S::h_eq("zyxw[3]", v.zyxw()[3], v[3]);
    S::h_eq("zyyx[0]", v.zyyx()[0], v[2]);
    S::h_eq("zyyx[1]", v.zyyx()[1], v[1]);
    S::h_eq("zyyx[2]", v.zyyx()[2], v[1]);
    S::h_eq("zyyx[3]", v.zyyx()[3], v[0]);
    S::h_eq("zyyy[0]", v.zyyy()[0], v[2]);
    S::h_eq("zyyy[1]", v.zyyy()[1], v[1]);
    S::h_eq("zyyy[2]", v.zyyy()[2], v[1]);
    S::h_eq("zyyy[3]", v.zyyy()[3], v[1]);
    S::h_eq("zyyz[0]", v.zyyz()[0], v[2]);
    S::h_eq("zyyz[1]", v.zyyz()[1], v[1]);
    S::h_eq("zyyz[2]", v.zyyz()[2], v[1]);
    S::h_eq("zyyz[3]", v.zyyz()[3], v[2]);
    S::h_eq("zyyw[0]", v.zyyw()[0], v[2]);
    S::h_eq("zyyw[1]", v.zyyw()[1], v[1]);
    S::h_eq("zyyw[2]", v.zyyw()[2], v[1]);
    S::h_eq("zyyw[3]", v.zyyw()[3], v[3]);
    S::h_eq("zyzx[0]", v.zyzx()[0], v[2]);
    S::h_eq("zyzx[1]", v.zyzx()[1], v[1]);
    S::h_eq("zyzx[2]", v.zyzx()[2], v[2]);
    S::h_eq("zyzx[3]", v.zyzx()[3], v[0]);
    S::h_eq("zyzy[0]", v.zyzy()[0], v[2]);
    S::h_eq("zyzy[1]", v.zyzy()[1], v[1]);
    S::h_eq("zyzy[2]", v.zyzy()[2], v[2]);
    S::h_eq("zyzy[3]", v.zyzy()[3], v[1]);
    S::h_eq("zyzz[0]", v.zyzz()[0], v[2]);
    S::h_eq("zyzz[1]", v.zyzz()[1], v[1]);
    S::h_eq("zyzz[2]", v.zyzz()[2], v[2]);
    S::h_eq("zyzz[3]", v.zyzz()[3], v[2]);
    S::h_eq("zyzw[0]", v.zyzw()[0], v[2]);
    S::h_eq("zyzw[1]", v.zyzw()[1], v[1]);
    S::h_eq("zyzw[2]", v.zyzw()[2], v[2]);
    S::h_eq("zyzw[3]", v.zyzw()[3], v[3]);
    S::h_eq("zywx[0]", v.zywx()[0], v[2]);
    S::h_eq("zywx[1]", v.zywx()[1], v[1]);
    S::h_eq("zywx[2]", v.zywx()[2], v[3]);
    S::h_eq("zywx[3]", v.zywx()[3], v[0]);
    S::h_eq("zywy[0]", v.zywy()[0], v[2]);
    S::h_eq("zywy[1]", v.zywy()[1], v[1]);
    S::h_eq("zywy[2]", v.zywy()[2], v[3]);
    S::h_eq("zywy[3]", v.zywy()[3], v[1]);
    S::h_eq("zywz[0]", v.zywz()[0], v[2]);
    S::h_eq("zywz[1]", v.zywz()[1], v[1]);
    S::h_eq("zywz[2]", v.zywz()[2], v[3]);
    S::h_eq("zywz[3]", v.zywz()[3], v[2]);
    S::h_eq("zyww[0]", v.zyww()[0], v[2]);
    S::h_eq("zyww[1]", v.zyww()[1], v[1]);
    S::h_eq("zyww[2]", v.zyww()[2], v[3]);
    S::h_eq("zyww[3]", v.zyww()[3], v[3]);
    S::h_eq("zzxx[0]", v.zzxx()[0], v[2]);
    S::h_eq("zzxx[1]", v.zzxx()[1], v[2]);
    S::h_eq("zzxx[2]", v.zzxx()[2], v[0]);
    S::h_eq("zzxx[3]", v.zzxx()[3], v[0]);
    S::h_eq("zzxy[0]", v.zzxy()[0], v[2]);
    S::h_eq("zzxy[1]", v.zzxy()[1], v[2]);
    S::h_eq("zzxy[2]", v.zzxy()[2], v[0]);
    S::h_eq("zzxy[3]", v.zzxy()[3], v[1]);
    S::h_eq("zzxz[0]", v.zzxz()[0], v[2]);
    S::h_eq("zzxz[1]", v.zzxz()[1], v[2]);
    S::h_eq("zzxz[2]", v.zzxz()[2], v[0]);
    S::h_eq("zzxz[3]", v.zzxz()[3], v[2]);
    S::h_eq("zzxw[0]", v.zzxw()[0], v[2]);
    S::h_eq("zzxw[1]", v.zzxw()[1], v[2]);
    S::h_eq("zzxw[2]", v.zzxw()[2], v[0]);
    S::h_eq("zzxw[3]", v.zzxw()[3], v[3]);
    S::h_eq("zzyx[0]", v.zzyx()[0], v[2]);
    S::h_eq("zzyx[1]", v.zzyx()[1], v[2]);
    S::h_eq("zzyx[2]", v.zzyx()[2], v[1]);
    S::h_eq("zzyx[3]", v.zzyx()[3], v[0]);
    S::h_eq("zzyy[0]", v.zzyy()[0], v[2]);
    S::h_eq("zzyy[1]", v.zzyy()[1], v[2]);
    S::h_eq("zzyy[2]", v.zzyy()[2], v[1]);
    S::h_eq("zzyy[3]", v.zzyy()[3], v[1]);
    S::h_eq("zzyz[0]", v.zzyz()[0], v[2]);
    S::h_eq("zzyz[1]", v.zzyz()[1], v[2]);
    S::h_eq("zzyz[2]", v.zzyz()[2], v[1]);
    S::h_eq("zzyz[3]", v.zzyz()[3], v[2]);
    S::h_eq("zzyw[0]", v.zzyw()[0], v[2]);
    S::h_eq("zzyw[1]", v.zzyw()[1], v[2]);
    S::h_eq("zzyw[2]", v.zzyw()[2], v[1]);
    S::h_eq("zzyw[3]", v.zzyw()[3], v[3]);
    S::h_eq("zzzx[0]", v.zzzx()[0], v[2]);
    S::h_eq("zzzx[1]", v.zzzx()[1], v[2]);
    S::h_eq("zzzx[2]", v.zzzx()[2], v[2]);
    S::h_eq("zzzx[3]", v.zzzx()[3], v[0]);
    S::h_eq("zzzy[0]", v.zzzy()[0], v[2]);
    S::h_eq("zzzy[1]", v.zzzy()[1], v[2]);
    S::h_eq("zzzy[2]", v.zzzy()[2], v[2]);
    S::h_eq("zzzy[3]", v.zzzy()[3], v[1]);
    S::h_eq("zzzz[0]", v.zzzz()[0], v[2]);
    S::h_eq("zzzz[1]", v.zzzz()[1], v[2]);
    S::h_eq("zzzz[2]", v.zzzz()[2], v[2]);
    S::h_eq("zzzz[3]", v.zzzz()[3], v[2]);
    S::h_eq("zzzw[0]", v.zzzw()[0], v[2]);
    S::h_eq("zzzw[1]", v.zzzw()[1], v[2]);
    S::h_eq("zzzw[2]", v.zzzw()[2], v[2]);
    S::h_eq("zzzw[3]", v.zzzw()[3], v[3]);
    S::h_eq("zzwx[0]", v.zzwx()[0], v[2]);
    S::h_eq("zzwx[1]", v.zzwx()[1], v[2]);
    S::h_eq("zzwx[2]", v.zzwx()[2], v[3]);
    S::h_eq("zzwx[3]", v.zzwx()[3], v[0]);
    S::h_eq("zzwy[0]", v.zzwy()[0], v[2]);
    S::h_eq("zzwy[1]", v.zzwy()[1], v[2]);
    S::h_eq("zzwy[2]", v.zzwy()[2], v[3]);
    S::h_eq("zzwy[3]", v.zzwy()[3], v[1]);
    S::h_eq("zzwz[0]", v.zzwz()[0], v[2]);
    S::h_eq("zzwz[1]", v.zzwz()[1], v[2]);
    S::h_eq("zzwz[2]", v.zzwz()[2], v[3]);
    S::h_eq("zzwz[3]", v.zzwz()[3], v[2]);
    S::h_eq("zzww[0]", v.zzww()[0], v[2]);
    S::h_eq("zzww[1]", v.zzww()[1], v[2]);
    S::h_eq("zzww[2]", v.zzww()[2], v[3]);
    S::h_eq("zzww[3]", v.zzww()[3], v[3]);
    S::h_eq("zwxx[0]", v.zwxx()[0], v[2]);
    S::h_eq("zwxx[1]", v.zwxx()[1], v[3]);
    S::h_eq("zwxx[2]", v.zwxx()[2], v[0]);
    S::h_eq("zwxx[3]", v.zwxx()[3], v[0]);
    S::h_eq("zwxy[0]", v.zwxy()[0], v[2]);
    S::h_eq("zwxy[1]", v.zwxy()[1], v[3]);
    S::h_eq("zwxy[2]", v.zwxy()[2], v[0]);
    S::h_eq("zwxy[3]", v.zwxy()[3], v[1]);
    S::h_eq("zwxz[0]", v.zwxz()[0], v[2]);
    S::h_eq("zwxz[1]", v.zwxz()[1], v[3]);
    S::h_eq("zwxz[2]", v.zwxz()[2], v[0]);
    S::h_eq("zwxz[3]", v.zwxz()[3], v[2]);
    S::h_eq("zwxw[0]", v.zwxw()[0], v[2]);
    S::h_eq("zwxw[1]", v.zwxw()[1], v[3]);
    S::h_eq("zwxw[2]", v.zwxw()[2], v[0]);
    S::h_eq("zwxw[3]", v.zwxw()[3], v[3]);
    S::h_eq("zwyx[0]", v.zwyx()[0], v[2]);
    S::h_eq("zwyx[1]", v.zwyx()[1], v[3]);
    S::h_eq("zwyx[2]", v.zwyx()[2], v[1]);
    S::h_eq("zwyx[3]", v.zwyx()[3], v[0]);
    S::h_eq("zwyy[0]", v.zwyy()[0], v[2]);
    S::h_eq("zwyy[1]", v.zwyy()[1], v[3]);
    S::h_eq("zwyy[2]", v.zwyy()[2], v[1]);
    S::h_eq("zwyy[3]", v.zwyy()[3], v[1]);
    S::h_eq("zwyz[0]", v.zwyz()[0], v[2]);
    S::h_eq("zwyz[1]", v.zwyz()[1], v[3]);
    S::h_eq("zwyz[2]", v.zwyz()[2], v[1]);
    S::h_eq("zwyz[3]", v.zwyz()[3], v[2]);
    S::h_eq("zwyw[0]", v.zwyw()[0], v[2]);
    S::h_eq("zwyw[1]", v.zwyw()[1], v[3]);
    S::h_eq("zwyw[2]", v.zwyw()[2], v[1]);
    S::h_eq("zwyw[3]", v.zwyw()[3], v[3]);
    S::h_eq("zwzx[0]", v.zwzx()[0], v[2]);
    S::h_eq("zwzx[1]", v.zwzx()[1], v[3]);
    S::h_eq("zwzx[2]", v.zwzx()[2], v[2]);
    S::h_eq("zwzx[3]", v.zwzx()[3], v[0]);
    S::h_eq("zwzy[0]", v.zwzy()[0], v[2]);
    S::h_eq("zwzy[1]", v.zwzy()[1], v[3]);
    S::h_eq("zwzy[2]", v.zwzy()[2], v[2]);
    S::h_eq("zwzy[3]", v.zwzy()[3], v[1]);
    S::h_eq("zwzz[0]", v.zwzz()[0], v[2]);
    S::h_eq("zwzz[1]", v.zwzz()[1], v[3]);
    S::h_eq("zwzz[2]", v.zwzz()[2], v[2]);
    S::h_eq("zwzz[3]", v.zwzz()[3], v[2]);
    S::h_eq("zwzw[0]", v.zwzw()[0], v[2]);
    S::h_eq("zwzw[1]", v.zwzw()[1], v[3]);
    S::h_eq("zwzw[2]", v.zwzw()[2], v[2]);
    S::h_eq("zwzw[3]", v.zwzw()[3], v[3]);
    S::h_eq("zwwx[0]", v.zwwx()[0], v[2]);
    S::h_eq("zwwx[1]", v.zwwx()[1], v[3]);
    S::h_eq("zwwx[2]", v.zwwx()[2], v[3]);
    S::h_eq("zwwx[3]", v.zwwx()[3], v[0]);
    S::h_eq("zwwy[0]", v.zwwy()[0], v[2]);
    S::h_eq("zwwy[1]", v.zwwy()[1], v[3]);
    S::h_eq("zwwy[2]", v.zwwy()[2], v[3]);
    S::h_eq("zwwy[3]", v.zwwy()[3], v[1]);
    S::h_eq("zwwz[0]", v.zwwz()[0], v[2]);
    S::h_eq("zwwz[1]", v.zwwz()[1], v[3]);
    S::h_eq("zwwz[2]", v.zwwz()[2], v[3]);
    S::h_eq("zwwz[3]", v.zwwz()[3], v[2]);
    S::h_eq("zwww[0]", v.zwww()[0], v[2]);
    S::h_eq("zwww[1]", v.zwww()[1], v[3]);
    S::h_eq("zwww[2]", v.zwww()[2], v[3]);
    S::h_eq("zwww[3]", v.zwww()[3], v[3]);
    S::h_eq("wxxx[0]", v.wxxx()[0], v[3]);
    S::h_eq("wxxx[1]", v.wxxx()[1], v[0]);
    S::h_eq("wxxx[2]", v.wxxx()[2], v[0]);
    S::h_eq("wxxx[3]", v.wxxx()[3], v[0]);
    S::h_eq("wxxy[0]", v.wxxy()[0], v[3]);
    S::h_eq("wxxy[1]", v.wxxy()[1], v[0]);
    S::h_eq("wxxy[2]", v.wxxy()[2], v[0]);
    S::h_eq("wxxy[3]", v.wxxy()[3], v[1]);
    S::h_eq("wxxz[0]", v.wxxz()[0], v[3]);
    S::h_eq("wxxz[1]", v.wxxz()[1], v[0]);
    S::h_eq("wxxz[2]", v.wxxz()[2], v[0]);
    S::h_eq("wxxz[3]", v.wxxz()[3], v[2]);
    S::h_eq("wxxw[0]", v.wxxw()[0], v[3]);
    S::h_eq("wxxw[1]", v.wxxw()[1], v[0]);
    S::h_eq("wxxw[2]", v.wxxw()[2], v[0]);
    S::h_eq("wxxw[3]", v.wxxw()[3], v[3]);
    S::h_eq("wxyx[0]", v.wxyx()[0], v[3]);
    S::h_eq("wxyx[1]", v.wxyx()[1], v[0]);
    S::h_eq("wxyx[2]", v.wxyx()[2], v[1]);
    S::h_eq("wxyx[3]", v.wxyx()[3], v[0]);
    S::h_eq("wxyy[0]", v.wxyy()[0], v[3]);
    S::h_eq("wxyy[1]", v.wxyy()[1], v[0]);
    S::h_eq("wxyy[2]", v.wxyy()[2], v[1]);
    S::h_eq("wxyy[3]", v.wxyy()[3], v[1]);
    S::h_eq("wxyz[0]", v.wxyz()[0], v[3]);
    S::h_eq("wxyz[1]", v.wxyz()[1], v[0]);
    S::h_eq("wxyz[2]", v.wxyz()[2], v[1]);
    S::h_eq("wxyz[3]", v.wxyz()[3], v[2]);
    S::h_eq("wxyw[0]", v.wxyw()[0], v[3]);
    S::h_eq("wxyw[1]", v.wxyw()[1], v[0]);
    S::h_eq("wxyw[2]", v.wxyw()[2], v[1]);
    S::h_eq("wxyw[3]", v.wxyw()[3], v[3]);
    S::h_eq("wxzx[0]", v.wxzx()[0], v[3]);
    S::h_eq("wxzx[1]", v.wxzx()[1], v[0]);
    S::h_eq("wxzx[2]", v.wxzx()[2], v[2]);
    S::h_eq("wxzx[3]", v.wxzx()[3], v[0]);
    S::h_eq("wxzy[0]", v.wxzy()[0], v[3]);
    S::h_eq("wxzy[1]", v.wxzy()[1], v[0]);
    S::h_eq("wxzy[2]", v.wxzy()[2], v[2]);
    S::h_eq("wxzy[3]", v.wxzy()[3], v[1]);
    S::h_eq("wxzz[0]", v.wxzz()[0], v[3]);
    S::h_eq("wxzz[1]", v.wxzz()[1], v[0]);
    S::h_eq("wxzz[2]", v.wxzz()[2], v[2]);
    S::h_eq("wxzz[3]", v.wxzz()[3], v[2]);
    S::h_eq("wxzw[0]", v.wxzw()[0], v[3]);
    S::h_eq("wxzw[1]", v.wxzw()[1], v[0]);
    S::h_eq("wxzw[2]", v.wxzw()[2], v[2]);
    S::h_eq("wxzw[3]", v.wxzw()[3], v[3]);
    S::h_eq("wxwx[0]", v.wxwx()[0], v[3]);
    S::h_eq("wxwx[1]", v.wxwx()[1], v[0]);
    S::h_eq("wxwx[2]", v.wxwx()[2], v[3]);
    S::h_eq("wxwx[3]", v.wxwx()[3], v[0]);
    S::h_eq("wxwy[0]", v.wxwy()[0], v[3]);
    S::h_eq("wxwy[1]", v.wxwy()[1], v[0]);
    S::h_eq("wxwy[2]", v.wxwy()[2], v[3]);
    S::h_eq("wxwy[3]", v.wxwy()[3], v[1]);
    S::h_eq("wxwz[0]", v.wxwz()[0], v[3]);
    S::h_eq("wxwz[1]", v.wxwz()[1], v[0]);
    S::h_eq("wxwz[2]", v.wxwz()[2], v[3]);
    S::h_eq("wxwz[3]", v.wxwz()[3], v[2]);
    S::h_eq("wxww[0]", v.wxww()[0], v[3]);
    S::h_eq("wxww[1]", v.wxww()[1], v[0]);
    S::h_eq("wxww[2]", v.wxww()[2], v[3]);
    S::h_eq("wxww[3]", v.wxww()[3], v[3]);
    S::h_eq("wyxx[0]", v.wyxx()[0], v[3]);
    S::h_eq("wyxx[1]", v.wyxx()[1], v[1]);
    S::h_eq("wyxx[2]", v.wyxx()[2], v[0]);
    S::h_eq("wyxx[3]", v.wyxx()[3], v[0]);
    S::h_eq("wyxy[0]", v.wyxy()[0], v[3]);
    S::h_eq("wyxy[1]", v.wyxy()[1], v[1]);
    S::h_eq("wyxy[2]", v.wyxy()[2], v[0]);
    S::h_eq("wyxy[3]", v.wyxy()[3], v[1]);
    S::h_eq("wyxz[0]", v.wyxz()[0], v[3]);
    S::h_eq("wyxz[1]", v.wyxz()[1], v[1]);
    S::h_eq("wyxz[2]", v.wyxz()[2], v[0]);
    S::h_eq("wyxz[3]", v.wyxz()[3], v[2]);
    S::h_eq("wyxw[0]", v.wyxw()[0], v[3]);
    S::h_eq("wyxw[1]", v.wyxw()[1], v[1]);
    S::h_eq("wyxw[2]", v.wyxw()[2], v[0]);
    S::h_eq("wyxw[3]", v.wyxw()[3], v[3]);
    S::h_eq("wyyx[0]", v.wyyx()[0], v[3]);
    S::h_eq("wyyx[1]", v.wyyx()[1], v[1]);
    S::h_eq("wyyx[2]", v.wyyx()[2], v[1]);
    S::h_eq("wyyx[3]", v.wyyx()[3], v[0]);
    S::h_eq("wyyy[0]", v.wyyy()[0], v[3]);
    S::h_eq("wyyy[1]", v.wyyy()[1], v[1]);
    S::h_eq("wyyy[2]", v.wyyy()[2], v[1]);
    S::h_eq("wyyy[3]", v.wyyy()[3], v[1]);
    S::h_eq("wyyz[0]", v.wyyz()[0], v[3]);
    S::h_eq("wyyz[1]", v.wyyz()[1], v[1]);
    S::h_eq("wyyz[2]", v.wyyz()[2], v[1]);
    S::h_eq("wyyz[3]", v.wyyz()[3], v[2]);
    S::h_eq("wyyw[0]", v.wyyw()[0], v[3]);
    S::h_eq("wyyw[1]", v.wyyw()[1], v[1]);
    S::h_eq("wyyw[2]", v.wyyw()[2], v[1]);
    S::h_eq("wyyw[3]", v.wyyw()[3], v[3]);
    S::h_eq("wyzx[0]", v.wyzx()[0], v[3]);
    S::h_eq("wyzx[1]", v.wyzx()[1], v[1]);
    S::h_eq("wyzx[2]", v.wyzx()[2], v[2]);
    S::h_eq("wyzx[3]", v.wyzx()[3], v[0]);
    S::h_eq("wyzy[0]", v.wyzy()[0], v[3]);
    S::h_eq("wyzy[1]", v.wyzy()[1], v[1]);
    S::h_eq("wyzy[2]", v.wyzy()[2], v[2]);
    S::h_eq("wyzy[3]", v.wyzy()[3], v[1]);
    S::h_eq("wyzz[0]", v.wyzz()[0], v[3]);
    S::h_eq("wyzz[1]", v.wyzz()[1], v[1]);
    S::h_eq("wyzz[2]", v.wyzz()[2], v[2]);
    S::h_eq("wyzz[3]", v.wyzz()[3], v[2]);
    S::h_eq("wyzw[0]", v.wyzw()[0], v[3]);
    S::h_eq("wyzw[1]", v.wyzw()[1], v[1]);
    S::h_eq("wyzw[2]", v.wyzw()[2], v[2]);
    S::h_eq("wyzw[3]", v.wyzw()[3], v[3]);
    S::h_eq("wywx[0]", v.wywx()[0], v[3]);
    S::h_eq("wywx[1]", v.wywx()[1], v[1]);
    S::h_eq("wywx[2]", v.wywx()[2], v[3]);
    S::h_eq("wywx[3]", v.wywx()[3], v[0]);
    S::h_eq("wywy[0]", v.wywy()[0], v[3]);
    S::h_eq("wywy[1]", v.wywy()[1], v[1]);
    S::h_eq("wywy[2]", v.wywy()[2], v[3]);
    S::h_eq("wywy[3]", v.wywy()[3], v[1]);
    S::h_eq("wywz[0]", v.wywz()[0], v[3]);
    S::h_eq("wywz[1]", v.wywz()[1], v[1]);
    S::h_eq("wywz[2]", v.wywz()[2], v[3]);
    S::h_eq("wywz[3]", v.wywz()[3], v[2]);
    S::h_eq("wyww[0]", v.wyww()[0], v[3]);
    S::h_eq("wyww[1]", v.wyww()[1], v[1]);
    S::h_eq("wyww[2]", v.wyww()[2], v[3]);
    S::h_eq("wyww[3]", v.wyww()[3], v[3]);
    S::h_eq("wzxx[0]", v.wzxx()[0], v[3]);
    S::h_eq("wzxx[1]", v.wzxx()[1], v[2]);
    S::h_eq("wzxx[2]", v.wzxx()[2], v[0]);
    S::h_eq("wzxx[3]", v.wzxx()[3], v[0]);
    S::h_eq("wzxy[0]", v.wzxy()[0], v[3]);
    S::h_eq("wzxy[1]", v.wzxy()[1], v[2]);
    S::h_eq("wzxy[2]", v.wzxy()[2], v[0]);
    S::h_eq("wzxy[3]", v.wzxy()[3], v[1]);
    S::h_eq("wzxz[0]", v.wzxz()[0], v[3]);
    S::h_eq("wzxz[1]", v.wzxz()[1], v[2]);
    S::h_eq("wzxz[2]", v.wzxz()[2], v[0]);
    S::h_eq("wzxz[3]", v.wzxz()[3], v[2]);
    S::h_eq("wzxw[0]", v.wzxw()[0], v[3]);
    S::h_eq("wzxw[1]", v.wzxw()[1], v[2]);
    S::h_eq("wzxw[2]", v.wzxw()[2], v[0]);
    S::h_eq("wzxw[3]", v.wzxw()[3], v[3]);
    S::h_eq("wzyx[0]", v.wzyx()[0], v[3]);
    S::h_eq("wzyx[1]", v.wzyx()[1], v[2]);
    S::h_eq("wzyx[2]", v.wzyx()[2], v[1]);
    S::h_eq("wzyx[3]", v.wzyx()[3], v[0]);
    S::h_eq("wzyy[0]", v.wzyy()[0], v[3]);
    S::h_eq("wzyy[1]", v.wzyy()[1], v[2]);
    S::h_eq("wzyy[2]", v.wzyy()[2], v[1]);
    S::h_eq("wzyy[3]", v.wzyy()[3], v[1]);
    S::h_eq("wzyz[0]", v.wzyz()[0], v[3]);
    S::h_eq("wzyz[1]", v.wzyz()[1], v[2]);
    S::h_eq("wzyz[2]", v.wzyz()[2], v[1]);
    S::h_eq("wzyz[3]", v.wzyz()[3], v[2]);
    S::h_eq("wzyw[0]", v.wzyw()[0], v[3]);
    S::h_eq("wzyw[1]", v.wzyw()[1], v[2]);
    S::h_eq("wzyw[2]", v.wzyw()[2], v[1]);
    S::h_eq("wzyw[3]", v.wzyw()[3], v[3]);
    S::h_eq("wzzx[0]", v.wzzx()[0], v[3]);
    S::h_eq("wzzx[1]", v.wzzx()[1], v[2]);
    S::h_eq("wzzx[2]", v.wzzx()[2], v[2]);
    S::h_eq("wzzx[3]", v.wzzx()[3], v[0]);
    S::h_eq("wzzy[0]", v.wzzy()[0], v[3]);
    S::h_eq("wzzy[1]", v.wzzy()[1], v[2]);
    S::h_eq("wzzy[2]", v.wzzy()[2], v[2]);
    S::h_eq("wzzy[3]", v.wzzy()[3], v[1]);
    S::h_eq("wzzz[0]", v.wzzz()[0], v[3]);
    S::h_eq("wzzz[1]", v.wzzz()[1], v[2]);
    S::h_eq("wzzz[2]", v.wzzz()[2], v[2]);
    S::h_eq("wzzz[3]", v.wzzz()[3], v[2]);
    S::h_eq("wzzw[0]", v.wzzw()[0], v[3]);
    S::h_eq("wzzw[1]", v.wzzw()[1], v[2]);
    S::h_eq("wzzw[2]", v.wzzw()[2], v[2]);
    S::h_eq("wzzw[3]", v.wzzw()[3], v[3]);
    S::h_eq("wzwx[0]", v.wzwx()[0], v[3]);
    S::h_eq("wzwx[1]", v.wzwx()[1], v[2]);
    S::h_eq("wzwx[2]", v.wzwx()[2], v[3]);
    S::h_eq("wzwx[3]", v.wzwx()[3], v[0]);
    S::h_eq("wzwy[0]", v.wzwy()[0], v[3]);
    S::h_eq("wzwy[1]", v.wzwy()[1], v[2]);
    S::h_eq("wzwy[2]", v.wzwy()[2], v[3]);
    S::h_eq("wzwy[3]", v.wzwy()[3], v[1]);
    S::h_eq("wzwz[0]", v.wzwz()[0], v[3]);
    S::h_eq("wzwz[1]", v.wzwz()[1], v[2]);
    S::h_eq("wzwz[2]", v.wzwz()[2], v[3]);
    S::h_eq("wzwz[3]", v.wzwz()[3], v[2]);
    S::h_eq("wzww[0]", v.wzww()[0], v[3]);
    S::h_eq("wzww[1]", v.wzww()[1], v[2]);
    S::h_eq("wzww[2]", v.wzww()[2], v[3]);
    S::h_eq("wzww[3]", v.wzww()[3], v[3]);
    S::h_eq("wwxx[0]", v.wwxx()[0], v[3]);
    S::h_eq("wwxx[1]", v.wwxx()[1], v[3]);
    S::h_eq("wwxx[2]", v.wwxx()[2], v[0]);
    S::h_eq("wwxx[3]", v.wwxx()[3], v[0]);
    S::h_eq("wwxy[0]", v.wwxy()[0], v[3]);
    S::h_eq("wwxy[1]", v.wwxy()[1], v[3]);
    S::h_eq("wwxy[2]", v.wwxy()[2], v[0]);
    S::h_eq("wwxy[3]", v.wwxy()[3], v[1]);
    S::h_eq("wwxz[0]", v.wwxz()[0], v[3]);
    S::h_eq("wwxz[1]", v.wwxz()[1], v[3]);
    S::h_eq("wwxz[2]", v.wwxz()[2], v[0]);
    S::h_eq("wwxz[3]", v.wwxz()[3], v[2]);
    S::h_eq("wwxw[0]", v.wwxw()[0], v[3]);
    S::h_eq("wwxw[1]", v.wwxw()[1], v[3]);
    S::h_eq("wwxw[2]", v.wwxw()[2], v[0]);
    S::h_eq("wwxw[3]", v.wwxw()[3], v[3]);
    S::h_eq("wwyx[0]", v.wwyx()[0], v[3]);
    S::h_eq("wwyx[1]", v.wwyx()[1], v[3]);
    S::h_eq("wwyx[2]", v.wwyx()[2], v[1]);
    S::h_eq("wwyx[3]", v.wwyx()[3], v[0]);
    S::h_eq("wwyy[0]", v.wwyy()[0], v[3]);
    S::h_eq("wwyy[1]", v.wwyy()[1], v[3]);
    S::h_eq("wwyy[2]", v.wwyy()[2], v[1]);
    S::h_eq("wwyy[3]", v.wwyy()[3], v[1]);
    S::h_eq("wwyz[0]", v.wwyz()[0], v[3]);
    S::h_eq("wwyz[1]", v.wwyz()[1], v[3]);
    S::h_eq("wwyz[2]", v.wwyz()[2], v[1]);
    S::h_eq("wwyz[3]", v.wwyz()[3], v[2]);
    S::h_eq("wwyw[0]", v.wwyw()[0], v[3]);
    S::h_eq("wwyw[1]", v.wwyw()[1], v[3]);
    S::h_eq("wwyw[2]", v.wwyw()[2], v[1]);
    S::h_eq("wwyw[3]", v.wwyw()[3], v[3]);
    S::h_eq("wwzx[0]", v.wwzx()[0], v[3]);
    S::h_eq("wwzx[1]", v.wwzx()[1], v[3]);
    S::h_eq("wwzx[2]", v.wwzx()[2], v[2]);
    S::h_eq("wwzx[3]", v.wwzx()[3], v[0]);
    S::h_eq("wwzy[0]", v.wwzy()[0], v[3]);
    S::h_eq("wwzy[1]", v.wwzy()[1], v[3]);
    S::h_eq("wwzy[2]", v.wwzy()[2], v[2]);
    S::h_eq("wwzy[3]", v.wwzy()[3], v[1]);
    S::h_eq("wwzz[0]", v.wwzz()[0], v[3]);
    S::h_eq("wwzz[1]", v.wwzz()[1], v[3]);
    S::h_eq("wwzz[2]", v.wwzz()[2], v[2]);
    S::h_eq("wwzz[3]", v.wwzz()[3], v[2]);
    S::h_eq("wwzw[0]", v.wwzw()[0], v[3]);
    S::h_eq("wwzw[1]", v.wwzw()[1], v[3]);
    S::h_eq("wwzw[2]", v.wwzw()[2], v[2]);
    S::h_eq("wwzw[3]", v.wwzw()[3], v[3]);
    S::h_eq("wwwx[0]", v.wwwx()[0], v[3]);
    S::h_eq("wwwx[1]", v.wwwx()[1], v[3]);
    S::h_eq("wwwx[2]", v.wwwx()[2], v[3]);
    S::h_eq("wwwx[3]", v.wwwx()[3], v[0]);
    S::h_eq("wwwy[0]", v.wwwy()[0], v[3]);
    S::h_eq("wwwy[1]", v.wwwy()[1], v[3]);
    S::h_eq("wwwy[2]", v.wwwy()[2], v[3]);
    S::h_eq("wwwy[3]", v.wwwy()[3], v[1]);
    S::h_eq("wwwz[0]", v.wwwz()[0], v[3]);
    S::h_eq("wwwz[1]", v.wwwz()[1], v[3]);
    S::h_eq("wwwz[2]", v.wwwz()[2], v[3]);
    S::h_eq("wwwz[3]", v.wwwz()[3], v[2]);
    S::h_eq("wwww[0]", v.wwww()[0], v[3]);
    S::h_eq("wwww[1]", v.wwww()[1], v[3]);
    S::h_eq("wwww[2]", v.wwww()[2], v[3]);
    S::h_eq("wwww[3]", v.wwww()[3], v[3]);
}
pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C07", "swizzle_point1", swz_point1; "Point1: 1 swizzle methods");
    h!(v, "C07", "swizzle_point2", swz_point2; "Point2: 6 swizzle methods");
    h!(v, "C07", "swizzle_point3", swz_point3; "Point3: 39 swizzle methods");
    h!(v, "C07", "swizzle_vector1", swz_vector1; "Vector1: 1 swizzle methods");
    h!(v, "C07", "swizzle_vector2", swz_vector2; "Vector2: 6 swizzle methods");
    h!(v, "C07", "swizzle_vector3", swz_vector3; "Vector3: 39 swizzle methods");
    h!(v, "C07", "swizzle_vector4", swz_vector4; "Vector4: 340 swizzle methods");
}
