//! The harness's own idea of a circuit, and of what a solution of it is.
//! Nothing in here uses the code under test.

/// Waveform of an independent source
#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Dc(f64),
    Sin { vo: f64, va: f64, freq: f64 },
    Pwl { pts: Vec<(f64, f64)>, td: f64, rep: bool },
}

/// Circuit element between nodes (0 = ground)
#[derive(Clone, Debug, PartialEq)]
pub enum El {
    R { a: usize, b: usize, v: f64 },
    C { a: usize, b: usize, v: f64 },
    V { p: usize, n: usize, s: Src },
    I { p: usize, n: usize, s: Src },
    E { p: usize, n: usize, cp: usize, cn: usize, k: f64 },
    G { p: usize, n: usize, cp: usize, cn: usize, k: f64 },
    D { p: usize, n: usize, isat: f64, vt: f64 },
}

impl El {
    pub fn is_vtype(&self) -> bool {
        matches!(self, El::V { .. } | El::E { .. })
    }
    pub fn nodes(&self) -> Vec<usize> {
        match *self {
            El::R { a, b, .. } | El::C { a, b, .. } => vec![a, b],
            El::V { p, n, .. } | El::I { p, n, .. } | El::D { p, n, .. } => vec![p, n],
            El::E { p, n, cp, cn, .. } | El::G { p, n, cp, cn, .. } => vec![p, n, cp, cn],
        }
    }
    pub fn letter(&self) -> char {
        match self {
            El::R { .. } => 'R',
            El::C { .. } => 'C',
            El::V { .. } => 'V',
            El::I { .. } => 'I',
            El::E { .. } => 'E',
            El::G { .. } => 'G',
            El::D { .. } => 'D',
        }
    }
    pub fn map_nodes<F: Fn(usize) -> usize>(&self, f: F) -> El {
        match self.clone() {
            El::R { a, b, v } => El::R { a: f(a), b: f(b), v },
            El::C { a, b, v } => El::C { a: f(a), b: f(b), v },
            El::V { p, n, s } => El::V { p: f(p), n: f(n), s },
            El::I { p, n, s } => El::I { p: f(p), n: f(n), s },
            El::E { p, n, cp, cn, k } => El::E { p: f(p), n: f(n), cp: f(cp), cn: f(cn), k },
            El::G { p, n, cp, cn, k } => El::G { p: f(p), n: f(n), cp: f(cp), cn: f(cn), k },
            El::D { p, n, isat, vt } => El::D { p: f(p), n: f(n), isat, vt },
        }
    }
}

/// A flat circuit: `n` nodes including ground
#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub n: usize,
    pub els: Vec<El>,
}

/// A candidate solution: node voltages, and currents of the V and E elements in
/// the order of the elements
#[derive(Clone, Debug)]
pub struct Sol {
    pub v: Vec<f64>,
    pub i: Vec<f64>,
}

// ---------------------------------------------------------------- sources

fn pwl_at(pts: &[(f64, f64)], tc: f64) -> f64 {
    // straight lines through (0,0) (if the first point is later) and the points
    let (mut t1, mut v1) = (0.0, 0.0);
    for (i, &(t2, v2)) in pts.iter().enumerate() {
        if tc == t2 {
            return v2;
        }
        if tc < t2 {
            if i == 0 && t2 <= 0.0 {
                return v2;
            }
            return v1 + (v2 - v1) * ((tc - t1) / (t2 - t1));
        }
        t1 = t2;
        v1 = v2;
    }
    v1
}

impl Src {
    /// Reference value
    pub fn at(&self, t: f64) -> f64 {
        match self {
            Src::Dc(v) => *v,
            Src::Sin { vo, va, freq } => vo + va * (2.0 * std::f64::consts::PI * freq * t).sin(),
            Src::Pwl { pts, td, rep } => {
                if pts.is_empty() {
                    return 0.0;
                }
                let t0 = t - td;
                if t0 < 0.0 {
                    return 0.0;
                }
                let last = pts[pts.len() - 1];
                if *rep {
                    pwl_at(pts, t0 % last.0)
                } else if t0 >= last.0 {
                    last.1
                } else {
                    pwl_at(pts, t0)
                }
            }
        }
    }

    /// The values the source may have at `t`, allowing for the rounding of the
    /// time arithmetic
    pub fn range(&self, t: f64) -> (f64, f64) {
        match self {
            Src::Dc(v) => (*v, *v),
            Src::Sin { vo, va, freq } => {
                let x = self.at(t);
                let arg = (2.0 * std::f64::consts::PI * freq * t).abs();
                let tol = 1e-12 * (vo.abs() + va.abs()) + va.abs() * 1e-15 * arg;
                (x - tol, x + tol)
            }
            Src::Pwl { pts, td, rep } => {
                let x = self.at(t);
                let (mut lo, mut hi) = (x, x);
                let t0 = t - td;
                let last = pts.last().map_or(0.0, |p| p.0);
                let d = 4.0 * f64::EPSILON * (t.abs() + td.abs() + last);
                if t0 >= -d && !pts.is_empty() {
                    for k in [-1.0, -0.5, -0.25, 0.25, 0.5, 1.0] {
                        let mut tc = t0 + k * d;
                        if *rep {
                            tc %= last;
                            if tc < 0.0 {
                                tc = if t0 == 0.0 { 0.0 } else { tc + last };
                            }
                        } else if tc < 0.0 {
                            tc = 0.0;
                        }
                        if t0 + k * d < 0.0 && *td != 0.0 {
                            // possibly still before the delay
                            lo = lo.min(0.0);
                            hi = hi.max(0.0);
                        }
                        let y = if !*rep && tc >= last { pts[pts.len() - 1].1 } else { pwl_at(pts, tc) };
                        lo = lo.min(y);
                        hi = hi.max(y);
                    }
                    // corners that are as close as that
                    let tc = if *rep { t0.max(0.0) % last } else { t0 };
                    let near = |m: f64| (tc - m).abs() <= d || (*rep && last - (tc - m).abs() <= d);
                    for p in pts {
                        if near(p.0) {
                            lo = lo.min(p.1);
                            hi = hi.max(p.1);
                        }
                    }
                    if near(0.0) && *rep {
                        let y = pwl_at(pts, 0.0);
                        lo = lo.min(y);
                        hi = hi.max(y);
                    }
                }
                let m: f64 = pts.iter().fold(0.0, |m, p| f64::max(m, p.1.abs()));
                (lo - 1e-12 * m, hi + 1e-12 * m)
            }
        }
    }

    pub fn size(&self) -> f64 {
        match self {
            Src::Dc(v) => v.abs(),
            Src::Sin { vo, va, .. } => vo.abs() + va.abs(),
            Src::Pwl { pts, .. } => pts.iter().fold(0.0, |m, p| f64::max(m, p.1.abs())),
        }
    }
}

// ------------------------------------------------------------- equations

/// How the equations are to be read
#[derive(Clone)]
pub struct At<'a> {
    pub t: f64,
    /// previous row and the time since then; None: capacitors are open
    pub prev: Option<(&'a Sol, f64)>,
    pub reltol: f64,
    pub vntol: f64,
}

impl At<'_> {
    pub fn dc(t: f64) -> At<'static> {
        At { t, prev: None, reltol: 0.0, vntol: 0.0 }
    }
}

pub fn shockley(isat: f64, vt: f64, v: f64) -> f64 {
    isat * ((v / vt).exp() - 1.0)
}

const REL: f64 = 1e-9;

/// Do node voltages and source currents satisfy every equation of the circuit?
/// Returns the largest error relative to its tolerance.
pub fn check(f: &Flat, s: &Sol, at: &At) -> Result<f64, String> {
    if s.v.len() != f.n {
        return Err(format!("{} node voltages for {} nodes", s.v.len(), f.n));
    }
    if let Some(i) = s.v.iter().chain(s.i.iter()).position(|x| !x.is_finite()) {
        return Err(format!("value {} of the solution is not finite: {:?}", i, s));
    }
    if s.v[0] != 0.0 {
        return Err(format!("ground is at {} V", s.v[0]));
    }
    let v = |k: usize| s.v[k];

    let mut sum = vec![0.0f64; f.n]; // current leaving each node
    let mut mag = vec![0.0f64; f.n]; // magnitude of the terms
    let mut dio = vec![0.0f64; f.n]; // error allowed for diodes
    let mut branch: Vec<(usize, f64, f64)> = vec![]; // element, error, tolerance
    let mut max_a: f64 = 1e-300;
    let mut max_x: f64 = s.v.iter().chain(s.i.iter()).fold(1e-300, |m, x| f64::max(m, x.abs()));

    let mut dg = vec![0.0f64; f.n]; // diagonal, to find the matrix norm
    let mut vt_i = 0;
    let unit_scale = f.els.iter().any(|e| e.is_vtype());
    if unit_scale {
        max_a = 1.0;
    }
    for el in &f.els {
        // current from the first node through the element to the second, and the
        // magnitude of the terms it is made of
        let (p, n, i, m) = match el {
            El::R { a, b, v: r } => {
                let g = 1.0 / r;
                dg[*a] += g.abs();
                dg[*b] += g.abs();
                (*a, *b, g * (v(*a) - v(*b)), g.abs() * (v(*a).abs() + v(*b).abs()))
            }
            El::C { a, b, v: c } => match at.prev {
                None => (*a, *b, 0.0, 0.0),
                Some((q, dt)) => {
                    let g = c / dt;
                    dg[*a] += g.abs();
                    dg[*b] += g.abs();
                    let d_now = v(*a) - v(*b);
                    let d_old = q.v[*a] - q.v[*b];
                    max_x = max_x.max(q.v[*a].abs()).max(q.v[*b].abs());
                    (*a, *b, g * (d_now - d_old), g.abs() * (v(*a).abs() + v(*b).abs() + q.v[*a].abs() + q.v[*b].abs()))
                }
            },
            El::V { p, n, s: src } => {
                let i = s.i[vt_i];
                vt_i += 1;
                let (lo, hi) = src.range(at.t);
                let d = v(*p) - v(*n);
                let e = if d < lo { lo - d } else if d > hi { d - hi } else { 0.0 };
                branch.push((vt_i - 1, e, REL * (v(*p).abs() + v(*n).abs() + lo.abs().max(hi.abs()))));
                (*p, *n, i, i.abs())
            }
            El::E { p, n, cp, cn, k } => {
                let i = s.i[vt_i];
                vt_i += 1;
                let e = (v(*p) - v(*n) - k * (v(*cp) - v(*cn))).abs();
                max_a = max_a.max(k.abs());
                branch.push((
                    vt_i - 1,
                    e,
                    REL * (v(*p).abs() + v(*n).abs() + k.abs() * (v(*cp).abs() + v(*cn).abs())),
                ));
                (*p, *n, i, i.abs())
            }
            El::I { p, n, s: src } => {
                let (lo, hi) = src.range(at.t);
                let i = 0.5 * (lo + hi);
                for k in [*p, *n] {
                    dio[k] += 0.5 * (hi - lo);
                }
                (*p, *n, i, i.abs())
            }
            El::G { p, n, cp, cn, k } => {
                dg[*p] += k.abs();
                dg[*n] += k.abs();
                (*p, *n, k * (v(*cp) - v(*cn)), k.abs() * (v(*cp).abs() + v(*cn).abs()))
            }
            El::D { p, n, isat, vt } => {
                let vd = v(*p) - v(*n);
                let i = shockley(*isat, *vt, vd);
                // the accepted iterate is linearized at the one before, which is
                // within the tolerances
                let d = at.reltol * (v(*p).abs() + v(*n).abs()) + 2.0 * at.vntol;
                let u = d / vt;
                let ex = isat * (vd / vt).exp();
                let dev = ex * (1.0 - u.exp() * (1.0 - u)).abs().max((1.0 - (-u).exp() * (1.0 + u)).abs());
                let tol = 1.01 * dev + 1e-12 * (d + vd.abs() * 1e-3) + isat * 1e-9;
                for k in [*p, *n] {
                    dio[k] += tol;
                    dg[k] += (ex / vt).max(1e-12);
                }
                (*p, *n, i, i.abs() + isat + (ex / vt) * (v(*p).abs() + v(*n).abs()))
            }
        };
        sum[p] += i;
        sum[n] -= i;
        mag[p] += m;
        mag[n] += m;
        if !(i.is_finite()) {
            return Err(format!("current of {:?} is not finite", el));
        }
    }
    for g in dg.iter().skip(1) {
        max_a = max_a.max(*g);
    }

    let dim = (f.n + s.i.len()) as f64;
    let norm = 1e-13 * dim * max_a * max_x;
    let mut worst: f64 = 0.0;
    for k in 1..f.n {
        let tol = REL * mag[k] + dio[k] + norm + 1e-300;
        worst = worst.max(sum[k].abs() / tol);
        if sum[k].abs() > tol {
            return Err(format!(
                "Kirchhoff's current law broken at node {}: {:e} A leave it (tolerance {:e}); v = {:?} i = {:?}",
                k, sum[k], tol, s.v, s.i
            ));
        }
    }
    for (k, e, tol) in branch {
        let tol = tol + norm + 1e-300;
        worst = worst.max(e / tol);
        if e > tol {
            return Err(format!(
                "voltage of source number {} is off by {:e} V (tolerance {:e}); v = {:?} i = {:?}",
                k, e, tol, s.v, s.i
            ));
        }
    }
    Ok(worst)
}

// -------------------------------------------------------- reference solver

/// Matrix of the linear circuit (diodes not allowed), the right hand side as the
/// last column
fn assemble(f: &Flat, at: &At) -> Option<Vec<Vec<f64>>> {
    fill(f, at, false)
}

/// The same, or the magnitudes of the terms each entry is the sum of
fn fill(f: &Flat, at: &At, magnitudes: bool) -> Option<Vec<Vec<f64>>> {
    let nv = f.els.iter().filter(|e| e.is_vtype()).count();
    let dim = f.n - 1 + nv;
    let mut a = vec![vec![0.0f64; dim + 1]; dim];
    let mut k_v = 0;
    let put = |a: &mut Vec<Vec<f64>>, r: usize, c: usize, x: f64| {
        if r > 0 && c > 0 {
            a[r - 1][c - 1] += if magnitudes { x.abs() } else { x };
        }
    };
    for el in &f.els {
        match el {
            El::R { a: p, b: n, v } => {
                let g = 1.0 / v;
                put(&mut a, *p, *p, g);
                put(&mut a, *n, *n, g);
                put(&mut a, *p, *n, -g);
                put(&mut a, *n, *p, -g);
            }
            El::C { a: p, b: n, v } => {
                if let Some((q, dt)) = at.prev {
                    let g = v / dt;
                    put(&mut a, *p, *p, g);
                    put(&mut a, *n, *n, g);
                    put(&mut a, *p, *n, -g);
                    put(&mut a, *n, *p, -g);
                    let i = g * (q.v[*p] - q.v[*n]);
                    put(&mut a, *p, dim + 1, i);
                    put(&mut a, *n, dim + 1, -i);
                }
            }
            El::I { p, n, s } => {
                put(&mut a, *p, dim + 1, -s.at(at.t));
                put(&mut a, *n, dim + 1, s.at(at.t));
            }
            El::G { p, n, cp, cn, k } => {
                put(&mut a, *p, *cp, *k);
                put(&mut a, *p, *cn, -*k);
                put(&mut a, *n, *cp, -*k);
                put(&mut a, *n, *cn, *k);
            }
            El::V { p, n, s } => {
                let r = f.n + k_v;
                k_v += 1;
                put(&mut a, *p, r, 1.0);
                put(&mut a, *n, r, -1.0);
                put(&mut a, r, *p, 1.0);
                put(&mut a, r, *n, -1.0);
                put(&mut a, r, dim + 1, s.at(at.t));
            }
            El::E { p, n, cp, cn, k } => {
                let r = f.n + k_v;
                k_v += 1;
                put(&mut a, *p, r, 1.0);
                put(&mut a, *n, r, -1.0);
                put(&mut a, r, *p, 1.0);
                put(&mut a, r, *n, -1.0);
                put(&mut a, r, *cp, -*k);
                put(&mut a, r, *cn, *k);
            }
            El::D { .. } => return None,
        }
    }
    Some(a)
}

/// Bound on the error that rounding leaves in each unknown when the circuit is
/// solved by Gaussian elimination with partial pivoting: the inverse times the
/// residual it may leave. Nodes (without ground), then source currents.
pub fn rounding(f: &Flat, at: &At, s: &Sol) -> Option<Vec<f64>> {
    let mut a = assemble(f, at)?;
    let dim = a.len();
    let x: Vec<f64> = s.v.iter().skip(1).chain(s.i.iter()).copied().collect();
    let mut res = 0.0;
    let mag = fill(f, at, true)?;
    for j in 0..=dim {
        let m = mag.iter().fold(0.0f64, |m, r| m.max(r[j].abs()));
        res += m * if j < dim { x[j].abs() } else { 1.0 };
    }
    // 8 n eps, times a bit of growth
    res *= 4.0 * 8.0 * dim as f64 * 1.2e-16;
    // inverse by Gauss-Jordan with row equilibration and full pivoting
    let mut scale = vec![];
    for r in a.iter_mut() {
        let m = r[..dim].iter().fold(0.0f64, |m, x| m.max(x.abs()));
        if m == 0.0 {
            return None;
        }
        r.truncate(dim);
        for y in r.iter_mut() {
            *y /= m;
        }
        scale.push(1.0 / m);
    }
    let mut b = vec![vec![0.0; dim]; dim];
    for (k, r) in b.iter_mut().enumerate() {
        r[k] = scale[k];
    }
    let mut perm: Vec<usize> = (0..dim).collect();
    for k in 0..dim {
        let (mut br, mut bc, mut best) = (k, k, 0.0);
        for (r, row) in a.iter().enumerate().skip(k) {
            for (c, y) in row.iter().enumerate().skip(k) {
                if y.abs() > best {
                    best = y.abs();
                    br = r;
                    bc = c;
                }
            }
        }
        if best < 1e-300 {
            return None;
        }
        a.swap(k, br);
        b.swap(k, br);
        if bc != k {
            for r in a.iter_mut() {
                r.swap(k, bc);
            }
            perm.swap(k, bc);
        }
        let d = a[k][k];
        let (pa, pb) = (a[k].clone(), b[k].clone());
        for r in 0..dim {
            if r != k && a[r][k] != 0.0 {
                let q = a[r][k] / d;
                for c in k..dim {
                    a[r][c] -= q * pa[c];
                }
                for c in 0..dim {
                    b[r][c] -= q * pb[c];
                }
            }
        }
    }
    let mut e = vec![0.0; dim];
    for k in 0..dim {
        let sum: f64 = b[k].iter().map(|y| y.abs()).sum();
        e[perm[k]] = sum / a[k][k].abs() * res;
    }
    Some(e)
}

/// Solve the linear circuit (diodes not allowed) by Gaussian elimination with
/// full pivoting. Also returns an estimate of how badly conditioned it is, and
/// None if it is (close to) singular.
pub fn solve(f: &Flat, at: &At) -> Option<(Sol, f64)> {
    let mut a = assemble(f, at)?;
    let dim = a.len();
    // (by the terms that were summed: what is left where they cancel is rounding)
    let mag = fill(f, at, true)?;
    let rows: Vec<f64> = mag.iter().map(|r| r[..dim].iter().fold(0.0f64, |m, x| m.max(x.abs()))).collect();
    // equilibrate rows for the pivot search
    for (r, m) in a.iter_mut().zip(&rows) {
        if *m == 0.0 {
            return None;
        }
        for x in r.iter_mut() {
            *x /= m;
        }
    }
    let mut perm: Vec<usize> = (0..dim).collect();
    let (mut pmax, mut pmin) = (0.0f64, f64::INFINITY);
    for k in 0..dim {
        let (mut br, mut bc, mut best) = (k, k, -1.0);
        for r in k..dim {
            for c in k..dim {
                if a[r][c].abs() > best {
                    best = a[r][c].abs();
                    br = r;
                    bc = c;
                }
            }
        }
        if best < 1e-13 {
            return None;
        }
        pmax = pmax.max(best);
        pmin = pmin.min(best);
        a.swap(k, br);
        if bc != k {
            for r in a.iter_mut() {
                r.swap(k, bc);
            }
            perm.swap(k, bc);
        }
        for r in k + 1..dim {
            let q = a[r][k] / a[k][k];
            if q != 0.0 {
                for c in k..=dim {
                    let x = a[k][c];
                    a[r][c] -= q * x;
                }
            }
        }
    }
    let mut x = vec![0.0; dim];
    for k in (0..dim).rev() {
        let mut sum = a[k][dim];
        for c in k + 1..dim {
            sum -= a[k][c] * x[c];
        }
        x[k] = sum / a[k][k];
    }
    let mut y = vec![0.0; dim];
    for k in 0..dim {
        y[perm[k]] = x[k];
    }
    let mut v = vec![0.0];
    v.extend_from_slice(&y[..f.n - 1]);
    Some((Sol { v, i: y[f.n - 1..].to_vec() }, pmax / pmin))
}

/// The circuit with each diode replaced by its tangent at a voltage
pub fn linearized(f: &Flat, at: impl Fn(usize, usize) -> f64) -> Flat {
    let mut out = Flat { n: f.n, els: vec![] };
    for el in &f.els {
        match el {
            El::D { p, n, isat, vt } => {
                let v = at(*p, *n);
                let g = ((isat / vt) * (v / vt).exp()).clamp(1e-12, 1e12);
                out.els.push(El::R { a: *p, b: *n, v: 1.0 / g });
                out.els.push(El::I { p: *p, n: *n, s: Src::Dc(shockley(*isat, *vt, v) - g * v) });
            }
            e => out.els.push(e.clone()),
        }
    }
    out
}
