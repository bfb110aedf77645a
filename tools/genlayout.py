# generates /verif/sym/src/props/layout.rs
o=["//! C07 construction, indexing, views and reinterpretation agree on component order.","use super::*;","use crate::h;","""
fn sl<S: Scal>(n: &str, got: &[S], want: &[S]) {
    S::h_true(&format!("{n}: length"), got.len() == want.len());
    for i in 0..want.len().min(got.len()) {
        S::h_eq(&format!("{n}[{i}]"), got[i], want[i]);
    }
}
"""]
reg=[]
L="xyzw"
def tup(k,f="{}"): return "("+", ".join(f.format(i) for i in range(k))+("," if k==1 else "")+")"
for T,maxn in (("Vector",4),("Point",3)):
    for N in range(1,maxn+1):
        ty=f"{T}{N}"
        fn=f"lay_{ty.lower()}"
        b=[f"fn {fn}<S: Scal>() {{"]
        for i in range(N): b.append(f'    let c{i} = S::var("c{i}");')
        b.append('    let n = S::var("n");')
        cs=", ".join(f"c{i}" for i in range(N))
        b.append(f"    let w = [{cs}];")
        b.append(f"    let v: {ty}<S> = {ty}::new({cs});")
        b.append(f"    sl(\"slice\", v.as_slice(), &w);")
        b.append(f"    S::h_true(\"len\", v.len() == {N} && v.shape() == ({N}, 1) && !v.is_empty());")
        b.append(f"    sl(\"as_ref array\", AsRef::<[S; {N}]>::as_ref(&v), &w);")
        if T=="Vector": b.append(f"    sl(\"as_ref column\", &AsRef::<[[S; {N}]; 1]>::as_ref(&v)[0], &w);")
        b.append(f"    let t: &{tup(N,'S')} = v.as_ref();" .replace("S{}","S"))
        b[-1]=f"    let t: &({', '.join(['S']*N)}{',' if N==1 else ''}) = v.as_ref();"
        b.append(f"    sl(\"as_ref tuple\", &[{', '.join(f't.{i}' for i in range(N))}], &w);")
        b.append(f"    sl(\"from array\", {ty}::from(w).as_slice(), &w);")
        b.append(f"    sl(\"from array ref\", {ty}::from(&w).as_slice(), &w);")
        b.append(f"    let r: &{ty}<S> = (&w).into();")
        b.append(f"    sl(\"ref from array\", r.as_slice(), &w);")
        b.append(f"    S::h_true(\"ref from array does not copy\", r.as_ptr() == w.as_ptr());")
        b.append(f"    let tu = ({cs}{',' if N==1 else ''});")
        b.append(f"    sl(\"from tuple\", {ty}::from(tu).as_slice(), &w);")
        b.append(f"    sl(\"from tuple ref\", {ty}::from(&tu).as_slice(), &w);")
        b.append(f"    let r: &{ty}<S> = (&tu).into();")
        b.append(f"    sl(\"ref from tuple\", r.as_slice(), &w);")
        if N==1:
            b.append(f"    sl(\"from scalar\", {ty}::from(c0).as_slice(), &w);")
            b.append(f"    let t: &S = v.as_ref();\n    sl(\"as_ref scalar\", &[*t], &w);")
        b.append(f"    sl(\"fields\", &[{', '.join('v.'+L[i] for i in range(N))}], &w);")
        b.append(f"    sl(\"map\", v.map(|e| e * n).as_slice(), &[{', '.join(f'c{i} * n' for i in range(N))}]);")
        b.append(f"    sl(\"from_fill\", {ty}::from_fill(n).as_slice(), &[n; {N}]);")
        b.append(f"    for i in 0..{N} {{ S::h_eq(&format!(\"index {{i}}\"), v[i], w[i]); }}")
        b.append(f"    for i in 0..={N} {{ for j in i..={N} {{ sl(&format!(\"range {{i}}..{{j}}\"), &v[i..j], &w[i..j]); }} sl(&format!(\"range {{i}}..\"), &v[i..], &w[i..]); sl(&format!(\"range ..{{i}}\"), &v[..i], &w[..i]); }}")
        b.append(f"    sl(\"range ..\", &v[..], &w[..]);")
        b.append(f"    for i in 0..{N} {{\n        let mut ww = w;\n        ww[i] = n;")
        muts=["u[i] = n","u[..][i] = n","u[i..][0] = n","u[..i + 1][i] = n","u[i..i + 1][0] = n",f"AsMut::<[S; {N}]>::as_mut(&mut u)[i] = n",f"unsafe {{ *u.as_mut_ptr().add(i) = n }}"]
        if T=="Vector": muts.append(f"AsMut::<[[S; {N}]; 1]>::as_mut(&mut u)[0][i] = n")
        for k,m in enumerate(muts): b.append(f"        let mut u = v;\n        {m};\n        sl(&format!(\"write form {k} at {{i}}\"), u.as_slice(), &ww);")
        b.append("    }")
        for i in range(N):
            b.append(f"    let mut u = v;\n    u.{L[i]} = n;\n    let mut ww = w;\n    ww[{i}] = n;\n    sl(\"write field {L[i]}\", u.as_slice(), &ww);")
            b.append(f"    let mut u = v;\n    {{ let t: &mut ({', '.join(['S']*N)}{',' if N==1 else ''}) = u.as_mut(); t.{i} = n; }}\n    sl(\"write tuple {i}\", u.as_slice(), &ww);")
        # conversions
        if N<maxn: b.append(f"    sl(\"extend\", v.extend(n).as_slice(), &[{cs}, n]);")
        if N>1: b.append(f"    sl(\"contract\", v.contract().as_slice(), &w[..{N-1}]);")
        if T=="Vector" and N==4:
            b.append("    sl(\"Vector3 from Vector4\", Vector3::from(v).as_slice(), &w[..3]);\n    sl(\"Vector3 from &Vector4\", Vector3::from(&v).as_slice(), &w[..3]);")
        if T=="Point":
            b.append(f"    sl(\"to_vector\", v.to_vector().as_slice(), &w);\n    sl(\"from_vector\", {ty}::from_vector(&Vector{N}::new({cs})).as_slice(), &w);")
            b.append(f"    sl(\"origin\", {ty}::<S>::origin().as_slice(), &[S::zero(); {N}]);")
        else:
            b.append(f"    sl(\"zero\", {ty}::<S>::zero().as_slice(), &[S::zero(); {N}]);")
        b.append(f"    sl(\"default\", {ty}::<S>::default().as_slice(), &[S::zero(); {N}]);")
        b.append(f"    let u: {ty}<S> = {ty}::new({', '.join(f'S::var(%sd{i}%s)'%(chr(34),chr(34)) for i in range(N))});")
        b.append("    S::h_true(\"equality is component equality\", (v == u) == ("+" && ".join(f"c{i} == u.{L[i]}" for i in range(N))+"));")
        b.append("}")
        o+=b
        reg.append(f'    h!(v, "C07", "layout_{ty.lower()}", {fn}; "{ty}: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");')
# quaternion
for ty,N,flds in (("Quaternion",4,None),("Complex",2,["re","im"])):
    fn=f"lay_{ty.lower()}"
    cs=", ".join(f"c{i}" for i in range(N))
    b=[f"fn {fn}<S: Scal>() {{"]
    for i in range(N): b.append(f'    let c{i} = S::var("c{i}");')
    b.append('    let n = S::var("n");')
    b.append(f"    let w = [{cs}];\n    let v = {ty}::new({cs});\n    sl(\"slice\", v.as_slice(), &w);")
    b.append(f"    S::h_true(\"len\", v.len() == {N} && v.shape() == ({N}, 1) && !v.is_empty());")
    tt="("+", ".join(["S"]*N)+")"
    b.append(f"    sl(\"as_ref array\", AsRef::<[S; {N}]>::as_ref(&v), &w);\n    let t: &{tt} = v.as_ref();\n    sl(\"as_ref tuple\", &[{', '.join(f't.{i}' for i in range(N))}], &w);")
    b.append(f"    let tu = ({cs});")
    for nm,e in (("from array","w"),("from array ref","&w"),("from tuple","tu"),("from tuple ref","&tu")):
        b.append(f"    sl(\"{nm}\", {ty}::from({e}).as_slice(), &w);")
    b.append(f"    let r: &{ty}<S> = (&w).into();\n    sl(\"ref from array\", r.as_slice(), &w);\n    S::h_true(\"ref from array does not copy\", r.as_ptr() == w.as_ptr());\n    let r: &{ty}<S> = (&tu).into();\n    sl(\"ref from tuple\", r.as_slice(), &w);")
    b.append(f"    sl(\"map\", v.map(|e| e * n).as_slice(), &[{', '.join(f'c{i} * n' for i in range(N))}]);")
    b.append(f"    for i in 0..{N} {{ S::h_eq(&format!(\"index {{i}}\"), v[i], w[i]); }}")
    b.append(f"    for i in 0..={N} {{ for j in i..={N} {{ sl(&format!(\"range {{i}}..{{j}}\"), &v[i..j], &w[i..j]); }} sl(&format!(\"range {{i}}..\"), &v[i..], &w[i..]); sl(&format!(\"range ..{{i}}\"), &v[..i], &w[..i]); }}")
    b.append(f"    sl(\"range ..\", &v[..], &w[..]);")
    b.append(f"    for i in 0..{N} {{\n        let mut ww = w;\n        ww[i] = n;")
    for k,m in enumerate(["u[i] = n","u[..][i] = n","u[i..][0] = n","u[..i + 1][i] = n","u[i..i + 1][0] = n",f"AsMut::<[S; {N}]>::as_mut(&mut u)[i] = n",f"unsafe {{ *u.as_mut_ptr().add(i) = n }}"]):
        b.append(f"        let mut u = v;\n        {m};\n        sl(&format!(\"write form {k} at {{i}}\"), u.as_slice(), &ww);")
    b.append("    }")
    for i in range(N):
        b.append(f"    let mut u = v;\n    {{ let t: &mut {tt} = u.as_mut(); t.{i} = n; }}\n    let mut ww = w;\n    ww[{i}] = n;\n    sl(\"write tuple {i}\", u.as_slice(), &ww);")
    ds=", ".join(f'S::var("d{i}")' for i in range(N))
    b.append(f"    let u = {ty}::new({ds});\n    S::h_true(\"equality is component equality\", (v == u) == ({' && '.join(f'c{i} == u[{i}]' for i in range(N))}));")
    b.append(f"    sl(\"default\", {ty}::<S>::default().as_slice(), &[S::zero(); {N}]);\n    sl(\"zero\", {ty}::<S>::zero().as_slice(), &[S::zero(); {N}]);")
    if ty=="Quaternion":
        b.append("""    S::h_eq("scalar part", v.scalar(), c0);
    sl("vector part", v.vector().as_slice(), &w[1..]);
    S::h_eq("field s", v.s, c0);
    sl("field v", v.v.as_slice(), &w[1..]);
    let mut u = v;
    u.s = n;
    sl("write field s", u.as_slice(), &[n, c1, c2, c3]);
    let mut u = v;
    u.v = Vector3::new(n, c0, c1);
    sl("write field v", u.as_slice(), &[c0, n, c0, c1]);
    sl("from_parts", Quaternion::from_parts(c0, Vector3::new(c1, c2, c3)).as_slice(), &w);
    sl("from_vector", Quaternion::from_vector(Vector4::new(c0, c1, c2, c3)).as_slice(), &w);
    sl("from Vector4", Quaternion::from(Vector4::new(c0, c1, c2, c3)).as_slice(), &w);
    sl("from &Vector4", Quaternion::from(&Vector4::new(c0, c1, c2, c3)).as_slice(), &w);
    sl("from_fill", Quaternion::from_fill(n).as_slice(), &[n; 4]);
    let z = S::zero();
    let o = S::one();
    sl("from_real", Quaternion::from_real(n).as_slice(), &[n, z, z, z]);
    sl("from_pure", Quaternion::from_pure(Vector3::new(c1, c2, c3)).as_slice(), &[z, c1, c2, c3]);
    sl("unit_s", Quaternion::<S>::unit_s().as_slice(), &[o, z, z, z]);
    sl("unit_x", Quaternion::<S>::unit_x().as_slice(), &[z, o, z, z]);
    sl("unit_y", Quaternion::<S>::unit_y().as_slice(), &[z, z, o, z]);
    sl("unit_z", Quaternion::<S>::unit_z().as_slice(), &[z, z, z, o]);
    sl("identity", Quaternion::<S>::identity().as_slice(), &[o, z, z, z]);
    let q = Unit::from_value_unchecked(v);
    sl("unit deref", q.as_slice(), &w);
    sl("unit as_ref", q.as_ref().as_slice(), &w);
    sl("unit into_inner", q.into_inner().as_slice(), &w);""")
    else:
        b.append("""    sl("parts", &[v.real(), v.imaginary()], &w);
    sl("fields", &[v.re, v.im], &w);
    let z = S::zero();
    let o = S::one();
    sl("from_real", Complex::from_real(n).as_slice(), &[n, z]);
    sl("from scalar", Complex::from(n).as_slice(), &[n, z]);
    sl("from &scalar", Complex::from(&n).as_slice(), &[n, z]);
    sl("from_imaginary", Complex::from_imaginary(n).as_slice(), &[z, n]);
    sl("unit_re", Complex::<S>::unit_re().as_slice(), &[o, z]);
    sl("unit_im", Complex::<S>::unit_im().as_slice(), &[z, o]);
    sl("one", Complex::<S>::one().as_slice(), &[o, z]);
    sl("identity", Complex::<S>::identity().as_slice(), &[o, z]);""")
    b.append("}")
    o+=b
    reg.append(f'    h!(v, "C07", "layout_{ty.lower()}", {fn}; "{ty}: new, slices, array/tuple/field views, Index/IndexMut in every range form, conversions, map, ==");')
# matrices generic
shapes=[(1,1),(1,2),(1,3),(1,4),(2,2),(2,3),(2,4),(3,2),(3,3),(3,4),(4,2),(4,3),(4,4)]
for R,C in shapes:
    fn=f"lay_m{R}{C}"
    RC=R*C
    b=[f"fn {fn}<S: Scal>() {{"]
    b.append(f"    let w: [S; {RC}] = std::array::from_fn(|i| S::var(&format!(\"c{{i}}\")));")
    b.append('    let n = S::var("n");')
    b.append(f"    let a: [[S; {R}]; {C}] = std::array::from_fn(|c| std::array::from_fn(|r| w[c * {R} + r]));")
    cols=f"std::array::from_fn(|c| Vector::from(a[c]))"
    b.append(f"    let cv: [Vector<S, {R}>; {C}] = {cols};")
    b.append(f"    let rv: [Vector<S, {C}>; {R}] = std::array::from_fn(|r| Vector::from(std::array::from_fn::<S, {C}, _>(|c| a[c][r])));")
    b.append(f"    let m: Matrix<S, {R}, {C}> = Matrix::from(a);")
    b.append(f"    sl(\"slice\", m.as_slice(), &w);\n    S::h_true(\"len\", m.len() == {RC} && m.shape() == ({R}, {C}) && !m.is_empty() && m.is_square() == {'true' if R==C else 'false'});")
    b.append(f"    sl(\"from flat array\", Matrix::<S, {R}, {C}>::from(w).as_slice(), &w);")
    b.append(f"    sl(\"from_columns\", Matrix::<S, {R}, {C}>::from_columns(&cv).as_slice(), &w);\n    sl(\"from_rows\", Matrix::<S, {R}, {C}>::from_rows(&rv).as_slice(), &w);")
    b.append(f"    let p: &Matrix<S, {R}, {C}> = (&w).into();\n    sl(\"ref from flat array\", p.as_slice(), &w);\n    S::h_true(\"ref from flat array does not copy\", p.as_ptr() == w.as_ptr());")
    b.append(f"    let p: &Matrix<S, {R}, {C}> = (&a).into();\n    sl(\"ref from nested array\", p.as_slice(), &w);\n    let p: &Matrix<S, {R}, {C}> = (&cv).into();\n    sl(\"ref from columns\", p.as_slice(), &w);")
    b.append(f"    sl(\"as_ref flat\", AsRef::<[S; {RC}]>::as_ref(&m), &w);")
    b.append(f"    for c in 0..{C} {{\n        sl(&format!(\"as_ref nested {{c}}\"), &AsRef::<[[S; {R}]; {C}]>::as_ref(&m)[c], &a[c]);\n        sl(&format!(\"as_ref columns {{c}}\"), AsRef::<[Vector<S, {R}>; {C}]>::as_ref(&m)[c].as_slice(), &a[c]);\n        sl(&format!(\"column {{c}}\"), m.column(c).as_slice(), &a[c]);\n        sl(&format!(\"index {{c}}\"), m[c].as_slice(), &a[c]);\n        for r in 0..{R} {{\n            S::h_eq(&format!(\"index ({{c}},{{r}})\"), m[(c, r)], a[c][r]);\n            let mut ww = w;\n            ww[c * {R} + r] = n;")
    for k,mm in enumerate(["u[c][r] = n","u[(c, r)] = n",f"AsMut::<[S; {RC}]>::as_mut(&mut u)[c * {R} + r] = n",f"AsMut::<[[S; {R}]; {C}]>::as_mut(&mut u)[c][r] = n",f"AsMut::<[Vector<S, {R}>; {C}]>::as_mut(&mut u)[c][r] = n",f"unsafe {{ *u.as_mut_ptr().add(c * {R} + r) = n }}"]):
        b.append(f"            let mut u = m;\n            {mm};\n            sl(&format!(\"write form {k} at ({{c}},{{r}})\"), u.as_slice(), &ww);")
    b.append("        }\n    }")
    b.append(f"    for r in 0..{R} {{ sl(&format!(\"row {{r}}\"), m.row(r).as_slice(), rv[r].as_slice()); }}")
    b.append(f"    sl(\"map\", m.map(|e| e * n).as_slice(), &w.map(|e| e * n));\n    sl(\"from_fill\", Matrix::<S, {R}, {C}>::from_fill(n).as_slice(), &[n; {RC}]);\n    sl(\"default\", Matrix::<S, {R}, {C}>::default().as_slice(), &{'Matrix::<S, %d, %d>::identity()'%(R,C)+'.as_slice().to_vec()' if False else 'Matrix::<S, %d, %d>::zero().as_slice().to_vec()'%(R,C)});\n    sl(\"zero\", Matrix::<S, {R}, {C}>::zero().as_slice(), &[S::zero(); {RC}]);")
    b.append("}")
    o+=b
    reg.append(f'    h!(v, "C07", "layout_matrix_{R}x{C}", {fn}; "Matrix<{R},{C}>: slices, flat/nested/column views, Index/IndexMut, rows, columns, conversions, map");')
o.append("pub fn register(v: &mut Vec<Harness>) {"); o+=reg; o.append("}")
open("/verif/sym/src/props/layout.rs","w").write("\n".join(o)+"\n")
