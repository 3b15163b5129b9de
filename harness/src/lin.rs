//! Independent dense linear algebra used by the oracles (row-major, symmetric where it says so).
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    let m = a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * a.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn axpy(a: &[f64], s: f64, b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + s * y).collect()
}
pub fn mv(p: &[f64], n: usize, x: &[f64]) -> Vec<f64> {
    (0..n).map(|i| dot(&p[i * n..i * n + n], x)).collect()
}
pub fn quad(p: &[f64], n: usize, x: &[f64]) -> f64 {
    dot(&mv(p, n, x), x)
}
/// Lower Cholesky factor (row-major, upper part zero); None if not positive definite.
pub fn chol(p: &[f64], n: usize) -> Option<Vec<f64>> {
    let mut l = vec![0.0; n * n];
    for j in 0..n {
        let mut d = p[j * n + j];
        for k in 0..j {
            d -= l[j * n + k] * l[j * n + k];
        }
        if d.is_nan() || d <= 0.0 {
            return None;
        }
        let s = d.sqrt();
        l[j * n + j] = s;
        for i in j + 1..n {
            let mut v = p[i * n + j];
            for k in 0..j {
                v -= l[i * n + k] * l[j * n + k];
            }
            l[i * n + j] = v / s;
        }
    }
    Some(l)
}
/// Solve L y = b
pub fn fwd(l: &[f64], n: usize, b: &[f64]) -> Vec<f64> {
    let mut y = b.to_vec();
    for i in 0..n {
        let mut v = y[i];
        for k in 0..i {
            v -= l[i * n + k] * y[k];
        }
        y[i] = v / l[i * n + i];
    }
    y
}
/// Solve L^T y = b
pub fn bwd(l: &[f64], n: usize, b: &[f64]) -> Vec<f64> {
    let mut y = b.to_vec();
    for i in (0..n).rev() {
        let mut v = y[i];
        for k in i + 1..n {
            v -= l[k * n + i] * y[k];
        }
        y[i] = v / l[i * n + i];
    }
    y
}
pub fn logdet_chol(l: &[f64], n: usize) -> f64 {
    (0..n).map(|i| 2.0 * l[i * n + i].ln()).sum()
}
/// L x
pub fn lmul(l: &[f64], n: usize, x: &[f64]) -> Vec<f64> {
    (0..n)
        .map(|i| (0..=i).map(|k| l[i * n + k] * x[k]).sum())
        .collect()
}
/// L^T x
pub fn ltmul(l: &[f64], n: usize, x: &[f64]) -> Vec<f64> {
    (0..n)
        .map(|i| (i..n).map(|k| l[k * n + i] * x[k]).sum())
        .collect()
}
/// Jacobi eigenvalues (and vectors, as columns of the returned matrix) of a symmetric matrix.
pub fn jacobi(a0: &[f64], n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut a = a0.to_vec();
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        v[i * n + i] = 1.0;
    }
    for _ in 0..100 {
        let mut off = 0.0;
        let mut tot = 0.0;
        for i in 0..n {
            for j in 0..n {
                let x = a[i * n + j] * a[i * n + j];
                tot += x;
                if i != j {
                    off += x;
                }
            }
        }
        if off <= 1e-27 * tot {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a[p * n + q];
                if apq == 0.0 {
                    continue;
                }
                let th = (a[q * n + q] - a[p * n + p]) / (2.0 * apq);
                let t = if th.abs() > 1e150 {
                    0.5 / th
                } else {
                    th.signum() / (th.abs() + (1.0 + th * th).sqrt())
                };
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = t * c;
                for k in 0..n {
                    let x = a[k * n + p];
                    let y = a[k * n + q];
                    a[k * n + p] = c * x - s * y;
                    a[k * n + q] = s * x + c * y;
                }
                for k in 0..n {
                    let x = a[p * n + k];
                    let y = a[q * n + k];
                    a[p * n + k] = c * x - s * y;
                    a[q * n + k] = s * x + c * y;
                }
                for k in 0..n {
                    let x = v[k * n + p];
                    let y = v[k * n + q];
                    v[k * n + p] = c * x - s * y;
                    v[k * n + q] = s * x + c * y;
                }
            }
        }
    }
    ((0..n).map(|i| a[i * n + i]).collect(), v)
}
pub fn min_eig(a: &[f64], n: usize) -> f64 {
    jacobi(a, n).0.into_iter().fold(f64::INFINITY, f64::min)
}
/// Random orthogonal matrix by Gram-Schmidt on Gaussian columns.
pub fn rand_orth(r: &mut crate::rng::Rng, n: usize) -> Vec<f64> {
    let mut q: Vec<Vec<f64>> = vec![];
    while q.len() < n {
        let mut v = r.unit(n);
        for _ in 0..2 {
            for u in &q {
                let d = dot(u, &v);
                v = axpy(&v, -d, u);
            }
        }
        let s = norm(&v);
        if s > 1e-3 {
            q.push(v.iter().map(|x| x / s).collect());
        }
    }
    let mut m = vec![0.0; n * n];
    for j in 0..n {
        for i in 0..n {
            m[i * n + j] = q[j][i];
        }
    }
    m
}
/// Q diag(d) Q^T, exactly symmetric
pub fn from_eig(q: &[f64], d: &[f64], n: usize) -> Vec<f64> {
    let mut m = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = 0.0;
            for k in 0..n {
                s += q[i * n + k] * d[k] * q[j * n + k];
            }
            m[i * n + j] = s;
            m[j * n + i] = s;
        }
    }
    m
}
