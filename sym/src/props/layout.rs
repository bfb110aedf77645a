//! C07 construction, indexing, views and reinterpretation agree on component order.
use super::*;
use crate::h;

fn sl<S: Scal>(n: &str, got: &[S], want: &[S]) {
    S::h_true(&format!("{n}: length"), got.len() == want.len());
    for i in 0..want.len().min(got.len()) {
        S::h_eq(&format!("{n}[{i}]"), got[i], want[i]);
    }
}

fn lay_vector1<S: Scal>() {
    let c0 = S::var("c0");
    let n = S::var("n");
    let w = [c0];
    let v: Vector1<S> = Vector1::new(c0);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 1 && v.shape() == (1, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 1]>::as_ref(&v), &w);
    sl("as_ref column", &AsRef::<[[S; 1]; 1]>::as_ref(&v)[0], &w);
    let t: &(S,) = v.as_ref();
    sl("as_ref tuple", &[t.0], &w);
    sl("from array", Vector1::from(w).as_slice(), &w);
    sl("from array ref", Vector1::from(&w).as_slice(), &w);
    let r: &Vector1<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let tu = (c0,);
    sl("from tuple", Vector1::from(tu).as_slice(), &w);
    sl("from tuple ref", Vector1::from(&tu).as_slice(), &w);
    let r: &Vector1<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("from scalar", Vector1::from(c0).as_slice(), &w);
    let t: &S = v.as_ref();
    sl("as_ref scalar", &[*t], &w);
    sl("fields", &[v.x], &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n]);
    sl("from_fill", Vector1::from_fill(n).as_slice(), &[n; 1]);
    for i in 0..1 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=1 { for j in i..=1 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..1 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 1]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[[S; 1]; 1]>::as_mut(&mut u)[0][i] = n;
        sl(&format!("write form 7 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    u.x = n;
    let mut ww = w;
    ww[0] = n;
    sl("write field x", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S,) = u.as_mut(); t.0 = n; }
    sl("write tuple 0", u.as_slice(), &ww);
    sl("extend", v.extend(n).as_slice(), &[c0, n]);
    sl("zero", Vector1::<S>::zero().as_slice(), &[S::zero(); 1]);
    sl("default", Vector1::<S>::default().as_slice(), &[S::zero(); 1]);
    let u: Vector1<S> = Vector1::new(S::var("d0"));
    S::h_true("equality is component equality", (v == u) == (c0 == u.x));
}
fn lay_vector2<S: Scal>() {
    let c0 = S::var("c0");
    let c1 = S::var("c1");
    let n = S::var("n");
    let w = [c0, c1];
    let v: Vector2<S> = Vector2::new(c0, c1);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 2 && v.shape() == (2, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 2]>::as_ref(&v), &w);
    sl("as_ref column", &AsRef::<[[S; 2]; 1]>::as_ref(&v)[0], &w);
    let t: &(S, S) = v.as_ref();
    sl("as_ref tuple", &[t.0, t.1], &w);
    sl("from array", Vector2::from(w).as_slice(), &w);
    sl("from array ref", Vector2::from(&w).as_slice(), &w);
    let r: &Vector2<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let tu = (c0, c1);
    sl("from tuple", Vector2::from(tu).as_slice(), &w);
    sl("from tuple ref", Vector2::from(&tu).as_slice(), &w);
    let r: &Vector2<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("fields", &[v.x, v.y], &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n, c1 * n]);
    sl("from_fill", Vector2::from_fill(n).as_slice(), &[n; 2]);
    for i in 0..2 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=2 { for j in i..=2 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..2 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 2]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[[S; 2]; 1]>::as_mut(&mut u)[0][i] = n;
        sl(&format!("write form 7 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    u.x = n;
    let mut ww = w;
    ww[0] = n;
    sl("write field x", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S) = u.as_mut(); t.0 = n; }
    sl("write tuple 0", u.as_slice(), &ww);
    let mut u = v;
    u.y = n;
    let mut ww = w;
    ww[1] = n;
    sl("write field y", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S) = u.as_mut(); t.1 = n; }
    sl("write tuple 1", u.as_slice(), &ww);
    sl("extend", v.extend(n).as_slice(), &[c0, c1, n]);
    sl("contract", v.contract().as_slice(), &w[..1]);
    sl("zero", Vector2::<S>::zero().as_slice(), &[S::zero(); 2]);
    sl("default", Vector2::<S>::default().as_slice(), &[S::zero(); 2]);
    let u: Vector2<S> = Vector2::new(S::var("d0"), S::var("d1"));
    S::h_true("equality is component equality", (v == u) == (c0 == u.x && c1 == u.y));
}
fn lay_vector3<S: Scal>() {
    let c0 = S::var("c0");
    let c1 = S::var("c1");
    let c2 = S::var("c2");
    let n = S::var("n");
    let w = [c0, c1, c2];
    let v: Vector3<S> = Vector3::new(c0, c1, c2);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 3 && v.shape() == (3, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 3]>::as_ref(&v), &w);
    sl("as_ref column", &AsRef::<[[S; 3]; 1]>::as_ref(&v)[0], &w);
    let t: &(S, S, S) = v.as_ref();
    sl("as_ref tuple", &[t.0, t.1, t.2], &w);
    sl("from array", Vector3::from(w).as_slice(), &w);
    sl("from array ref", Vector3::from(&w).as_slice(), &w);
    let r: &Vector3<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let tu = (c0, c1, c2);
    sl("from tuple", Vector3::from(tu).as_slice(), &w);
    sl("from tuple ref", Vector3::from(&tu).as_slice(), &w);
    let r: &Vector3<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("fields", &[v.x, v.y, v.z], &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n, c1 * n, c2 * n]);
    sl("from_fill", Vector3::from_fill(n).as_slice(), &[n; 3]);
    for i in 0..3 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=3 { for j in i..=3 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..3 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 3]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[[S; 3]; 1]>::as_mut(&mut u)[0][i] = n;
        sl(&format!("write form 7 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    u.x = n;
    let mut ww = w;
    ww[0] = n;
    sl("write field x", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S) = u.as_mut(); t.0 = n; }
    sl("write tuple 0", u.as_slice(), &ww);
    let mut u = v;
    u.y = n;
    let mut ww = w;
    ww[1] = n;
    sl("write field y", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S) = u.as_mut(); t.1 = n; }
    sl("write tuple 1", u.as_slice(), &ww);
    let mut u = v;
    u.z = n;
    let mut ww = w;
    ww[2] = n;
    sl("write field z", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S) = u.as_mut(); t.2 = n; }
    sl("write tuple 2", u.as_slice(), &ww);
    sl("extend", v.extend(n).as_slice(), &[c0, c1, c2, n]);
    sl("contract", v.contract().as_slice(), &w[..2]);
    sl("zero", Vector3::<S>::zero().as_slice(), &[S::zero(); 3]);
    sl("default", Vector3::<S>::default().as_slice(), &[S::zero(); 3]);
    let u: Vector3<S> = Vector3::new(S::var("d0"), S::var("d1"), S::var("d2"));
    S::h_true("equality is component equality", (v == u) == (c0 == u.x && c1 == u.y && c2 == u.z));
}
fn lay_vector4<S: Scal>() {
    let c0 = S::var("c0");
    let c1 = S::var("c1");
    let c2 = S::var("c2");
    let c3 = S::var("c3");
    let n = S::var("n");
    let w = [c0, c1, c2, c3];
    let v: Vector4<S> = Vector4::new(c0, c1, c2, c3);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 4 && v.shape() == (4, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 4]>::as_ref(&v), &w);
    sl("as_ref column", &AsRef::<[[S; 4]; 1]>::as_ref(&v)[0], &w);
    let t: &(S, S, S, S) = v.as_ref();
    sl("as_ref tuple", &[t.0, t.1, t.2, t.3], &w);
    sl("from array", Vector4::from(w).as_slice(), &w);
    sl("from array ref", Vector4::from(&w).as_slice(), &w);
    let r: &Vector4<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let tu = (c0, c1, c2, c3);
    sl("from tuple", Vector4::from(tu).as_slice(), &w);
    sl("from tuple ref", Vector4::from(&tu).as_slice(), &w);
    let r: &Vector4<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("fields", &[v.x, v.y, v.z, v.w], &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n, c1 * n, c2 * n, c3 * n]);
    sl("from_fill", Vector4::from_fill(n).as_slice(), &[n; 4]);
    for i in 0..4 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=4 { for j in i..=4 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..4 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 4]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[[S; 4]; 1]>::as_mut(&mut u)[0][i] = n;
        sl(&format!("write form 7 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    u.x = n;
    let mut ww = w;
    ww[0] = n;
    sl("write field x", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.0 = n; }
    sl("write tuple 0", u.as_slice(), &ww);
    let mut u = v;
    u.y = n;
    let mut ww = w;
    ww[1] = n;
    sl("write field y", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.1 = n; }
    sl("write tuple 1", u.as_slice(), &ww);
    let mut u = v;
    u.z = n;
    let mut ww = w;
    ww[2] = n;
    sl("write field z", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.2 = n; }
    sl("write tuple 2", u.as_slice(), &ww);
    let mut u = v;
    u.w = n;
    let mut ww = w;
    ww[3] = n;
    sl("write field w", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.3 = n; }
    sl("write tuple 3", u.as_slice(), &ww);
    sl("contract", v.contract().as_slice(), &w[..3]);
    sl("Vector3 from Vector4", Vector3::from(v).as_slice(), &w[..3]);
    sl("Vector3 from &Vector4", Vector3::from(&v).as_slice(), &w[..3]);
    sl("zero", Vector4::<S>::zero().as_slice(), &[S::zero(); 4]);
    sl("default", Vector4::<S>::default().as_slice(), &[S::zero(); 4]);
    let u: Vector4<S> = Vector4::new(S::var("d0"), S::var("d1"), S::var("d2"), S::var("d3"));
    S::h_true("equality is component equality", (v == u) == (c0 == u.x && c1 == u.y && c2 == u.z && c3 == u.w));
}
fn lay_point1<S: Scal>() {
    let c0 = S::var("c0");
    let n = S::var("n");
    let w = [c0];
    let v: Point1<S> = Point1::new(c0);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 1 && v.shape() == (1, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 1]>::as_ref(&v), &w);
    let t: &(S,) = v.as_ref();
    sl("as_ref tuple", &[t.0], &w);
    sl("from array", Point1::from(w).as_slice(), &w);
    sl("from array ref", Point1::from(&w).as_slice(), &w);
    let r: &Point1<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let tu = (c0,);
    sl("from tuple", Point1::from(tu).as_slice(), &w);
    sl("from tuple ref", Point1::from(&tu).as_slice(), &w);
    let r: &Point1<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("from scalar", Point1::from(c0).as_slice(), &w);
    let t: &S = v.as_ref();
    sl("as_ref scalar", &[*t], &w);
    sl("fields", &[v.x], &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n]);
    sl("from_fill", Point1::from_fill(n).as_slice(), &[n; 1]);
    for i in 0..1 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=1 { for j in i..=1 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..1 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 1]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    u.x = n;
    let mut ww = w;
    ww[0] = n;
    sl("write field x", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S,) = u.as_mut(); t.0 = n; }
    sl("write tuple 0", u.as_slice(), &ww);
    sl("extend", v.extend(n).as_slice(), &[c0, n]);
    sl("to_vector", v.to_vector().as_slice(), &w);
    sl("from_vector", Point1::from_vector(&Vector1::new(c0)).as_slice(), &w);
    sl("origin", Point1::<S>::origin().as_slice(), &[S::zero(); 1]);
    sl("default", Point1::<S>::default().as_slice(), &[S::zero(); 1]);
    let u: Point1<S> = Point1::new(S::var("d0"));
    S::h_true("equality is component equality", (v == u) == (c0 == u.x));
}
fn lay_point2<S: Scal>() {
    let c0 = S::var("c0");
    let c1 = S::var("c1");
    let n = S::var("n");
    let w = [c0, c1];
    let v: Point2<S> = Point2::new(c0, c1);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 2 && v.shape() == (2, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 2]>::as_ref(&v), &w);
    let t: &(S, S) = v.as_ref();
    sl("as_ref tuple", &[t.0, t.1], &w);
    sl("from array", Point2::from(w).as_slice(), &w);
    sl("from array ref", Point2::from(&w).as_slice(), &w);
    let r: &Point2<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let tu = (c0, c1);
    sl("from tuple", Point2::from(tu).as_slice(), &w);
    sl("from tuple ref", Point2::from(&tu).as_slice(), &w);
    let r: &Point2<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("fields", &[v.x, v.y], &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n, c1 * n]);
    sl("from_fill", Point2::from_fill(n).as_slice(), &[n; 2]);
    for i in 0..2 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=2 { for j in i..=2 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..2 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 2]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    u.x = n;
    let mut ww = w;
    ww[0] = n;
    sl("write field x", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S) = u.as_mut(); t.0 = n; }
    sl("write tuple 0", u.as_slice(), &ww);
    let mut u = v;
    u.y = n;
    let mut ww = w;
    ww[1] = n;
    sl("write field y", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S) = u.as_mut(); t.1 = n; }
    sl("write tuple 1", u.as_slice(), &ww);
    sl("extend", v.extend(n).as_slice(), &[c0, c1, n]);
    sl("contract", v.contract().as_slice(), &w[..1]);
    sl("to_vector", v.to_vector().as_slice(), &w);
    sl("from_vector", Point2::from_vector(&Vector2::new(c0, c1)).as_slice(), &w);
    sl("origin", Point2::<S>::origin().as_slice(), &[S::zero(); 2]);
    sl("default", Point2::<S>::default().as_slice(), &[S::zero(); 2]);
    let u: Point2<S> = Point2::new(S::var("d0"), S::var("d1"));
    S::h_true("equality is component equality", (v == u) == (c0 == u.x && c1 == u.y));
}
fn lay_point3<S: Scal>() {
    let c0 = S::var("c0");
    let c1 = S::var("c1");
    let c2 = S::var("c2");
    let n = S::var("n");
    let w = [c0, c1, c2];
    let v: Point3<S> = Point3::new(c0, c1, c2);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 3 && v.shape() == (3, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 3]>::as_ref(&v), &w);
    let t: &(S, S, S) = v.as_ref();
    sl("as_ref tuple", &[t.0, t.1, t.2], &w);
    sl("from array", Point3::from(w).as_slice(), &w);
    sl("from array ref", Point3::from(&w).as_slice(), &w);
    let r: &Point3<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let tu = (c0, c1, c2);
    sl("from tuple", Point3::from(tu).as_slice(), &w);
    sl("from tuple ref", Point3::from(&tu).as_slice(), &w);
    let r: &Point3<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("fields", &[v.x, v.y, v.z], &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n, c1 * n, c2 * n]);
    sl("from_fill", Point3::from_fill(n).as_slice(), &[n; 3]);
    for i in 0..3 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=3 { for j in i..=3 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..3 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 3]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    u.x = n;
    let mut ww = w;
    ww[0] = n;
    sl("write field x", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S) = u.as_mut(); t.0 = n; }
    sl("write tuple 0", u.as_slice(), &ww);
    let mut u = v;
    u.y = n;
    let mut ww = w;
    ww[1] = n;
    sl("write field y", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S) = u.as_mut(); t.1 = n; }
    sl("write tuple 1", u.as_slice(), &ww);
    let mut u = v;
    u.z = n;
    let mut ww = w;
    ww[2] = n;
    sl("write field z", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S) = u.as_mut(); t.2 = n; }
    sl("write tuple 2", u.as_slice(), &ww);
    sl("contract", v.contract().as_slice(), &w[..2]);
    sl("to_vector", v.to_vector().as_slice(), &w);
    sl("from_vector", Point3::from_vector(&Vector3::new(c0, c1, c2)).as_slice(), &w);
    sl("origin", Point3::<S>::origin().as_slice(), &[S::zero(); 3]);
    sl("default", Point3::<S>::default().as_slice(), &[S::zero(); 3]);
    let u: Point3<S> = Point3::new(S::var("d0"), S::var("d1"), S::var("d2"));
    S::h_true("equality is component equality", (v == u) == (c0 == u.x && c1 == u.y && c2 == u.z));
}
fn lay_quaternion<S: Scal>() {
    let c0 = S::var("c0");
    let c1 = S::var("c1");
    let c2 = S::var("c2");
    let c3 = S::var("c3");
    let n = S::var("n");
    let w = [c0, c1, c2, c3];
    let v = Quaternion::new(c0, c1, c2, c3);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 4 && v.shape() == (4, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 4]>::as_ref(&v), &w);
    let t: &(S, S, S, S) = v.as_ref();
    sl("as_ref tuple", &[t.0, t.1, t.2, t.3], &w);
    let tu = (c0, c1, c2, c3);
    sl("from array", Quaternion::from(w).as_slice(), &w);
    sl("from array ref", Quaternion::from(&w).as_slice(), &w);
    sl("from tuple", Quaternion::from(tu).as_slice(), &w);
    sl("from tuple ref", Quaternion::from(&tu).as_slice(), &w);
    let r: &Quaternion<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let r: &Quaternion<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n, c1 * n, c2 * n, c3 * n]);
    for i in 0..4 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=4 { for j in i..=4 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..4 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 4]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.0 = n; }
    let mut ww = w;
    ww[0] = n;
    sl("write tuple 0", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.1 = n; }
    let mut ww = w;
    ww[1] = n;
    sl("write tuple 1", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.2 = n; }
    let mut ww = w;
    ww[2] = n;
    sl("write tuple 2", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S, S, S) = u.as_mut(); t.3 = n; }
    let mut ww = w;
    ww[3] = n;
    sl("write tuple 3", u.as_slice(), &ww);
    let u = Quaternion::new(S::var("d0"), S::var("d1"), S::var("d2"), S::var("d3"));
    S::h_true("equality is component equality", (v == u) == (c0 == u[0] && c1 == u[1] && c2 == u[2] && c3 == u[3]));
    sl("default", Quaternion::<S>::default().as_slice(), &[S::zero(); 4]);
    sl("zero", Quaternion::<S>::zero().as_slice(), &[S::zero(); 4]);
    S::h_eq("scalar part", v.scalar(), c0);
    sl("vector part", v.vector().as_slice(), &w[1..]);
    S::h_eq("field s", v.s, c0);
    sl("field v", v.v.as_slice(), &w[1..]);
    let mut u = v;
    u.s = n;
    sl("write field s", u.as_slice(), &[n, c1, c2, c3]);
    let mut u = v;
    u.v = Vector3::new(n, c0, c1);
    sl("write field v", u.as_slice(), &[c0, n, c0, c1]);
    sl("from_parts", Quaternion::from_parts(c0, Vector3::new(c1, c2, c3)).as_slice(), &w);
    sl("from_vector", Quaternion::from_vector(Vector4::new(c0, c1, c2, c3)).as_slice(), &w);
    sl("from Vector4", Quaternion::from(Vector4::new(c0, c1, c2, c3)).as_slice(), &w);
    sl("from &Vector4", Quaternion::from(&Vector4::new(c0, c1, c2, c3)).as_slice(), &w);
    sl("from_fill", Quaternion::from_fill(n).as_slice(), &[n; 4]);
    let z = S::zero();
    let o = S::one();
    sl("from_real", Quaternion::from_real(n).as_slice(), &[n, z, z, z]);
    sl("from_pure", Quaternion::from_pure(Vector3::new(c1, c2, c3)).as_slice(), &[z, c1, c2, c3]);
    sl("unit_s", Quaternion::<S>::unit_s().as_slice(), &[o, z, z, z]);
    sl("unit_x", Quaternion::<S>::unit_x().as_slice(), &[z, o, z, z]);
    sl("unit_y", Quaternion::<S>::unit_y().as_slice(), &[z, z, o, z]);
    sl("unit_z", Quaternion::<S>::unit_z().as_slice(), &[z, z, z, o]);
    sl("identity", Quaternion::<S>::identity().as_slice(), &[o, z, z, z]);
    let q = Unit::from_value_unchecked(v);
    sl("unit deref", q.as_slice(), &w);
    sl("unit as_ref", q.as_ref().as_slice(), &w);
    sl("unit into_inner", q.into_inner().as_slice(), &w);
}
fn lay_complex<S: Scal>() {
    let c0 = S::var("c0");
    let c1 = S::var("c1");
    let n = S::var("n");
    let w = [c0, c1];
    let v = Complex::new(c0, c1);
    sl("slice", v.as_slice(), &w);
    S::h_true("len", v.len() == 2 && v.shape() == (2, 1) && !v.is_empty());
    sl("as_ref array", AsRef::<[S; 2]>::as_ref(&v), &w);
    let t: &(S, S) = v.as_ref();
    sl("as_ref tuple", &[t.0, t.1], &w);
    let tu = (c0, c1);
    sl("from array", Complex::from(w).as_slice(), &w);
    sl("from array ref", Complex::from(&w).as_slice(), &w);
    sl("from tuple", Complex::from(tu).as_slice(), &w);
    sl("from tuple ref", Complex::from(&tu).as_slice(), &w);
    let r: &Complex<S> = (&w).into();
    sl("ref from array", r.as_slice(), &w);
    S::h_true("ref from array does not copy", r.as_ptr() == w.as_ptr());
    let r: &Complex<S> = (&tu).into();
    sl("ref from tuple", r.as_slice(), &w);
    sl("map", v.map(|e| e * n).as_slice(), &[c0 * n, c1 * n]);
    for i in 0..2 { S::h_eq(&format!("index {i}"), v[i], w[i]); }
    for i in 0..=2 { for j in i..=2 { sl(&format!("range {i}..{j}"), &v[i..j], &w[i..j]); } sl(&format!("range {i}.."), &v[i..], &w[i..]); sl(&format!("range ..{i}"), &v[..i], &w[..i]); }
    sl("range ..", &v[..], &w[..]);
    for i in 0..2 {
        let mut ww = w;
        ww[i] = n;
        let mut u = v;
        u[i] = n;
        sl(&format!("write form 0 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..][i] = n;
        sl(&format!("write form 1 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..][0] = n;
        sl(&format!("write form 2 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[..i + 1][i] = n;
        sl(&format!("write form 3 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        u[i..i + 1][0] = n;
        sl(&format!("write form 4 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        AsMut::<[S; 2]>::as_mut(&mut u)[i] = n;
        sl(&format!("write form 5 at {i}"), u.as_slice(), &ww);
        let mut u = v;
        unsafe { *u.as_mut_ptr().add(i) = n };
        sl(&format!("write form 6 at {i}"), u.as_slice(), &ww);
    }
    let mut u = v;
    { let t: &mut (S, S) = u.as_mut(); t.0 = n; }
    let mut ww = w;
    ww[0] = n;
    sl("write tuple 0", u.as_slice(), &ww);
    let mut u = v;
    { let t: &mut (S, S) = u.as_mut(); t.1 = n; }
    let mut ww = w;
    ww[1] = n;
    sl("write tuple 1", u.as_slice(), &ww);
    let u = Complex::new(S::var("d0"), S::var("d1"));
    S::h_true("equality is component equality", (v == u) == (c0 == u[0] && c1 == u[1]));
    sl("default", Complex::<S>::default().as_slice(), &[S::zero(); 2]);
    sl("zero", Complex::<S>::zero().as_slice(), &[S::zero(); 2]);
    sl("parts", &[v.real(), v.imaginary()], &w);
    sl("fields", &[v.re, v.im], &w);
    let z = S::zero();
    let o = S::one();
    sl("from_real", Complex::from_real(n).as_slice(), &[n, z]);
    sl("from scalar", Complex::from(n).as_slice(), &[n, z]);
    sl("from &scalar", Complex::from(&n).as_slice(), &[n, z]);
    sl("from_imaginary", Complex::from_imaginary(n).as_slice(), &[z, n]);
    sl("unit_re", Complex::<S>::unit_re().as_slice(), &[o, z]);
    sl("unit_im", Complex::<S>::unit_im().as_slice(), &[z, o]);
    sl("one", Complex::<S>::one().as_slice(), &[o, z]);
    sl("identity", Complex::<S>::identity().as_slice(), &[o, z]);
}
fn lay_m11<S: Scal>() {
    let w: [S; 1] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 1]; 1] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 1 + r]));
    let cv: [Vector<S, 1>; 1] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 1>; 1] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 1, _>(|c| a[c][r])));
    let m: Matrix<S, 1, 1> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 1 && m.shape() == (1, 1) && !m.is_empty() && m.is_square() == true);
    sl("from flat array", Matrix::<S, 1, 1>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 1, 1>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 1, 1>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 1, 1> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 1, 1> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 1, 1> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 1]>::as_ref(&m), &w);
    for c in 0..1 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 1]; 1]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 1>; 1]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..1 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 1 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 1]>::as_mut(&mut u)[c * 1 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 1]; 1]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 1>; 1]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 1 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..1 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 1, 1>::from_fill(n).as_slice(), &[n; 1]);
    sl("default", Matrix::<S, 1, 1>::default().as_slice(), &Matrix::<S, 1, 1>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 1, 1>::zero().as_slice(), &[S::zero(); 1]);
}
fn lay_m12<S: Scal>() {
    let w: [S; 2] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 1]; 2] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 1 + r]));
    let cv: [Vector<S, 1>; 2] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 2>; 1] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 2, _>(|c| a[c][r])));
    let m: Matrix<S, 1, 2> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 2 && m.shape() == (1, 2) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 1, 2>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 1, 2>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 1, 2>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 1, 2> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 1, 2> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 1, 2> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 2]>::as_ref(&m), &w);
    for c in 0..2 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 1]; 2]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 1>; 2]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..1 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 1 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 2]>::as_mut(&mut u)[c * 1 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 1]; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 1>; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 1 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..1 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 1, 2>::from_fill(n).as_slice(), &[n; 2]);
    sl("default", Matrix::<S, 1, 2>::default().as_slice(), &Matrix::<S, 1, 2>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 1, 2>::zero().as_slice(), &[S::zero(); 2]);
}
fn lay_m13<S: Scal>() {
    let w: [S; 3] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 1]; 3] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 1 + r]));
    let cv: [Vector<S, 1>; 3] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 3>; 1] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 3, _>(|c| a[c][r])));
    let m: Matrix<S, 1, 3> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 3 && m.shape() == (1, 3) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 1, 3>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 1, 3>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 1, 3>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 1, 3> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 1, 3> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 1, 3> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 3]>::as_ref(&m), &w);
    for c in 0..3 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 1]; 3]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 1>; 3]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..1 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 1 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 3]>::as_mut(&mut u)[c * 1 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 1]; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 1>; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 1 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..1 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 1, 3>::from_fill(n).as_slice(), &[n; 3]);
    sl("default", Matrix::<S, 1, 3>::default().as_slice(), &Matrix::<S, 1, 3>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 1, 3>::zero().as_slice(), &[S::zero(); 3]);
}
fn lay_m14<S: Scal>() {
    let w: [S; 4] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 1]; 4] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 1 + r]));
    let cv: [Vector<S, 1>; 4] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 4>; 1] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 4, _>(|c| a[c][r])));
    let m: Matrix<S, 1, 4> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 4 && m.shape() == (1, 4) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 1, 4>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 1, 4>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 1, 4>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 1, 4> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 1, 4> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 1, 4> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 4]>::as_ref(&m), &w);
    for c in 0..4 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 1]; 4]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 1>; 4]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..1 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 1 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 4]>::as_mut(&mut u)[c * 1 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 1]; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 1>; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 1 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..1 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 1, 4>::from_fill(n).as_slice(), &[n; 4]);
    sl("default", Matrix::<S, 1, 4>::default().as_slice(), &Matrix::<S, 1, 4>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 1, 4>::zero().as_slice(), &[S::zero(); 4]);
}
fn lay_m22<S: Scal>() {
    let w: [S; 4] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 2]; 2] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 2 + r]));
    let cv: [Vector<S, 2>; 2] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 2>; 2] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 2, _>(|c| a[c][r])));
    let m: Matrix<S, 2, 2> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 4 && m.shape() == (2, 2) && !m.is_empty() && m.is_square() == true);
    sl("from flat array", Matrix::<S, 2, 2>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 2, 2>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 2, 2>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 2, 2> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 2, 2> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 2, 2> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 4]>::as_ref(&m), &w);
    for c in 0..2 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 2]; 2]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 2>; 2]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..2 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 2 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 4]>::as_mut(&mut u)[c * 2 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 2]; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 2>; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 2 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..2 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 2, 2>::from_fill(n).as_slice(), &[n; 4]);
    sl("default", Matrix::<S, 2, 2>::default().as_slice(), &Matrix::<S, 2, 2>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 2, 2>::zero().as_slice(), &[S::zero(); 4]);
}
fn lay_m23<S: Scal>() {
    let w: [S; 6] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 2]; 3] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 2 + r]));
    let cv: [Vector<S, 2>; 3] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 3>; 2] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 3, _>(|c| a[c][r])));
    let m: Matrix<S, 2, 3> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 6 && m.shape() == (2, 3) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 2, 3>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 2, 3>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 2, 3>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 2, 3> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 2, 3> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 2, 3> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 6]>::as_ref(&m), &w);
    for c in 0..3 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 2]; 3]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 2>; 3]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..2 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 2 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 6]>::as_mut(&mut u)[c * 2 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 2]; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 2>; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 2 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..2 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 2, 3>::from_fill(n).as_slice(), &[n; 6]);
    sl("default", Matrix::<S, 2, 3>::default().as_slice(), &Matrix::<S, 2, 3>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 2, 3>::zero().as_slice(), &[S::zero(); 6]);
}
fn lay_m24<S: Scal>() {
    let w: [S; 8] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 2]; 4] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 2 + r]));
    let cv: [Vector<S, 2>; 4] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 4>; 2] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 4, _>(|c| a[c][r])));
    let m: Matrix<S, 2, 4> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 8 && m.shape() == (2, 4) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 2, 4>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 2, 4>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 2, 4>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 2, 4> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 2, 4> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 2, 4> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 8]>::as_ref(&m), &w);
    for c in 0..4 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 2]; 4]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 2>; 4]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..2 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 2 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 8]>::as_mut(&mut u)[c * 2 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 2]; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 2>; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 2 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..2 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 2, 4>::from_fill(n).as_slice(), &[n; 8]);
    sl("default", Matrix::<S, 2, 4>::default().as_slice(), &Matrix::<S, 2, 4>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 2, 4>::zero().as_slice(), &[S::zero(); 8]);
}
fn lay_m32<S: Scal>() {
    let w: [S; 6] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 3]; 2] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 3 + r]));
    let cv: [Vector<S, 3>; 2] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 2>; 3] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 2, _>(|c| a[c][r])));
    let m: Matrix<S, 3, 2> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 6 && m.shape() == (3, 2) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 3, 2>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 3, 2>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 3, 2>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 3, 2> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 3, 2> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 3, 2> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 6]>::as_ref(&m), &w);
    for c in 0..2 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 3]; 2]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 3>; 2]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..3 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 3 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 6]>::as_mut(&mut u)[c * 3 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 3]; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 3>; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 3 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..3 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 3, 2>::from_fill(n).as_slice(), &[n; 6]);
    sl("default", Matrix::<S, 3, 2>::default().as_slice(), &Matrix::<S, 3, 2>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 3, 2>::zero().as_slice(), &[S::zero(); 6]);
}
fn lay_m33<S: Scal>() {
    let w: [S; 9] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 3]; 3] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 3 + r]));
    let cv: [Vector<S, 3>; 3] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 3>; 3] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 3, _>(|c| a[c][r])));
    let m: Matrix<S, 3, 3> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 9 && m.shape() == (3, 3) && !m.is_empty() && m.is_square() == true);
    sl("from flat array", Matrix::<S, 3, 3>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 3, 3>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 3, 3>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 3, 3> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 3, 3> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 3, 3> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 9]>::as_ref(&m), &w);
    for c in 0..3 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 3]; 3]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 3>; 3]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..3 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 3 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 9]>::as_mut(&mut u)[c * 3 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 3]; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 3>; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 3 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..3 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 3, 3>::from_fill(n).as_slice(), &[n; 9]);
    sl("default", Matrix::<S, 3, 3>::default().as_slice(), &Matrix::<S, 3, 3>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 3, 3>::zero().as_slice(), &[S::zero(); 9]);
}
fn lay_m34<S: Scal>() {
    let w: [S; 12] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 3]; 4] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 3 + r]));
    let cv: [Vector<S, 3>; 4] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 4>; 3] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 4, _>(|c| a[c][r])));
    let m: Matrix<S, 3, 4> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 12 && m.shape() == (3, 4) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 3, 4>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 3, 4>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 3, 4>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 3, 4> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 3, 4> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 3, 4> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 12]>::as_ref(&m), &w);
    for c in 0..4 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 3]; 4]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 3>; 4]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..3 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 3 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 12]>::as_mut(&mut u)[c * 3 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 3]; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 3>; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 3 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..3 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 3, 4>::from_fill(n).as_slice(), &[n; 12]);
    sl("default", Matrix::<S, 3, 4>::default().as_slice(), &Matrix::<S, 3, 4>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 3, 4>::zero().as_slice(), &[S::zero(); 12]);
}
fn lay_m42<S: Scal>() {
    let w: [S; 8] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 4]; 2] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 4 + r]));
    let cv: [Vector<S, 4>; 2] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 2>; 4] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 2, _>(|c| a[c][r])));
    let m: Matrix<S, 4, 2> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 8 && m.shape() == (4, 2) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 4, 2>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 4, 2>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 4, 2>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 4, 2> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 4, 2> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 4, 2> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 8]>::as_ref(&m), &w);
    for c in 0..2 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 4]; 2]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 4>; 2]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..4 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 4 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 8]>::as_mut(&mut u)[c * 4 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 4]; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 4>; 2]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 4 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..4 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 4, 2>::from_fill(n).as_slice(), &[n; 8]);
    sl("default", Matrix::<S, 4, 2>::default().as_slice(), &Matrix::<S, 4, 2>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 4, 2>::zero().as_slice(), &[S::zero(); 8]);
}
fn lay_m43<S: Scal>() {
    let w: [S; 12] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 4]; 3] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 4 + r]));
    let cv: [Vector<S, 4>; 3] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 3>; 4] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 3, _>(|c| a[c][r])));
    let m: Matrix<S, 4, 3> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 12 && m.shape() == (4, 3) && !m.is_empty() && m.is_square() == false);
    sl("from flat array", Matrix::<S, 4, 3>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 4, 3>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 4, 3>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 4, 3> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 4, 3> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 4, 3> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 12]>::as_ref(&m), &w);
    for c in 0..3 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 4]; 3]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 4>; 3]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..4 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 4 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 12]>::as_mut(&mut u)[c * 4 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 4]; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 4>; 3]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 4 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..4 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 4, 3>::from_fill(n).as_slice(), &[n; 12]);
    sl("default", Matrix::<S, 4, 3>::default().as_slice(), &Matrix::<S, 4, 3>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 4, 3>::zero().as_slice(), &[S::zero(); 12]);
}
fn lay_m44<S: Scal>() {
    let w: [S; 16] = std::array::from_fn(|i| S::var(&format!("c{i}")));
    let n = S::var("n");
    let a: [[S; 4]; 4] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * 4 + r]));
    let cv: [Vector<S, 4>; 4] = std::array::from_fn(|c| Vector::from(a[c]));
    let rv: [Vector<S, 4>; 4] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, 4, _>(|c| a[c][r])));
    let m: Matrix<S, 4, 4> = Matrix::from(a);
    sl("slice", m.as_slice(), &w);
    S::h_true("len", m.len() == 16 && m.shape() == (4, 4) && !m.is_empty() && m.is_square() == true);
    sl("from flat array", Matrix::<S, 4, 4>::from(w).as_slice(), &w);
    sl("from_columns", Matrix::<S, 4, 4>::from_columns(&cv).as_slice(), &w);
    sl("from_rows", Matrix::<S, 4, 4>::from_rows(&rv).as_slice(), &w);
    let p: &Matrix<S, 4, 4> = (&w).into();
    sl("ref from flat array", p.as_slice(), &w);
    S::h_true("ref from flat array does not copy", p.as_ptr() == w.as_ptr());
    let p: &Matrix<S, 4, 4> = (&a).into();
    sl("ref from nested array", p.as_slice(), &w);
    let p: &Matrix<S, 4, 4> = (&cv).into();
    sl("ref from columns", p.as_slice(), &w);
    sl("as_ref flat", AsRef::<[S; 16]>::as_ref(&m), &w);
    for c in 0..4 {
        sl(&format!("as_ref nested {c}"), &AsRef::<[[S; 4]; 4]>::as_ref(&m)[c], &a[c]);
        sl(&format!("as_ref columns {c}"), AsRef::<[Vector<S, 4>; 4]>::as_ref(&m)[c].as_slice(), &a[c]);
        sl(&format!("column {c}"), m.column(c).as_slice(), &a[c]);
        sl(&format!("index {c}"), m[c].as_slice(), &a[c]);
        for r in 0..4 {
            S::h_eq(&format!("index ({c},{r})"), m[(c, r)], a[c][r]);
            let mut ww = w;
            ww[c * 4 + r] = n;
            let mut u = m;
            u[c][r] = n;
            sl(&format!("write form 0 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            u[(c, r)] = n;
            sl(&format!("write form 1 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[S; 16]>::as_mut(&mut u)[c * 4 + r] = n;
            sl(&format!("write form 2 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[[S; 4]; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 3 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            AsMut::<[Vector<S, 4>; 4]>::as_mut(&mut u)[c][r] = n;
            sl(&format!("write form 4 at ({c},{r})"), u.as_slice(), &ww);
            let mut u = m;
            unsafe { *u.as_mut_ptr().add(c * 4 + r) = n };
            sl(&format!("write form 5 at ({c},{r})"), u.as_slice(), &ww);
        }
    }
    for r in 0..4 { sl(&format!("row {r}"), m.row(r).as_slice(), rv[r].as_slice()); }
    sl("map", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));
    sl("from_fill", Matrix::<S, 4, 4>::from_fill(n).as_slice(), &[n; 16]);
    sl("default", Matrix::<S, 4, 4>::default().as_slice(), &Matrix::<S, 4, 4>::zero().as_slice().to_vec());
    sl("zero", Matrix::<S, 4, 4>::zero().as_slice(), &[S::zero(); 16]);
}
pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C07", "layout_vector1", lay_vector1; "Vector1: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_vector2", lay_vector2; "Vector2: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_vector3", lay_vector3; "Vector3: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_vector4", lay_vector4; "Vector4: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_point1", lay_point1; "Point1: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_point2", lay_point2; "Point2: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_point3", lay_point3; "Point3: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_quaternion", lay_quaternion; "Quaternion: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_complex", lay_complex; "Complex: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");
    h!(v, "C07", "layout_matrix_1x1", lay_m11; "Matrix<1,1>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_1x2", lay_m12; "Matrix<1,2>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_1x3", lay_m13; "Matrix<1,3>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_1x4", lay_m14; "Matrix<1,4>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_2x2", lay_m22; "Matrix<2,2>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_2x3", lay_m23; "Matrix<2,3>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_2x4", lay_m24; "Matrix<2,4>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_3x2", lay_m32; "Matrix<3,2>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_3x3", lay_m33; "Matrix<3,3>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_3x4", lay_m34; "Matrix<3,4>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_4x2", lay_m42; "Matrix<4,2>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_4x3", lay_m43; "Matrix<4,3>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
    h!(v, "C07", "layout_matrix_4x4", lay_m44; "Matrix<4,4>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");
}
