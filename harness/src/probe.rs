//! Reading and writing matrices through every accessor.
use crate::log::vals;
use crate::rng::Rng;
use crate::scalar::Sc;
use minikalman::matrix::*;

/// A value: anything goes in the field; otherwise of magnitude at most one, times 2^e.
pub fn val<T: Sc>(r: &mut Rng, e: i32) -> T {
    match r.us(5) {
        0 => T::zero(),
        1 => T::dy(r.sym(8), e - 3),
        _ if T::EXACT => T::full(r),
        _ => T::full(r) * T::dy(1, e),
    }
}
/// Reads something of a matrix; returns the fields of the event.
pub fn look<T: Sc, M: Matrix<R, C, T>, const R: usize, const C: usize>(m: &M, name: &str, r: &mut Rng) -> String {
    let (i, j) = (r.us(R), r.us(C));
    let one = |op: &str, via: &str, v: T| format!("\"e\":\"read\",\"op\":\"{op}\",\"via\":\"{via}\",\"a\":\"{name}\",\"i\":{i},\"j\":{j},\"v\":{}", vals(&[v]));
    let many = |op: &str, via: &str, v: &[T]| format!("\"e\":\"read\",\"op\":\"{op}\",\"via\":\"{via}\",\"a\":\"{name}\",\"i\":{i},\"j\":{j},\"v\":{}", vals(v));
    match r.us(8) {
        0 => one("element", "get", m.get(i, j)),
        1 => one("element", "get_at", m.get_at(i, j)),
        2 => format!("\"e\":\"read\",\"op\":\"index\",\"via\":\"[]\",\"a\":\"{name}\",\"i\":{},\"v\":{}", i * C + j, vals(&[m[i * C + j]])),
        3 => {
            let mut v = vec![T::poison(r); C];
            m.get_row_copy(i, &mut v);
            many("row", "get_row_copy", &v)
        }
        4 => {
            let mut v = vec![T::poison(r); R];
            m.get_column_copy(j, &mut v);
            many("column", "get_column_copy", &v)
        }
        5 => many("all", "as_slice", &m.as_slice()[..R * C]),
        6 => many("all", "inspect", &m.inspect(|q| (0..R * C).map(|k| q.get(k / C, k % C)).collect::<Vec<_>>())),
        _ => format!(
            "\"e\":\"read\",\"op\":\"dims\",\"via\":\"rows, cols, len, buffer_len, is_empty, is_valid\",\"a\":\"{name}\",\"v\":[{},{},{},{},{},{}]",
            m.rows(),
            m.cols(),
            m.len(),
            m.buffer_len(),
            m.is_empty() as u8,
            m.is_valid() as u8
        ),
    }
}
/// Writes something to a matrix.
pub fn touch<T: Sc, M: MatrixMut<R, C, T>, const R: usize, const C: usize>(m: &mut M, name: &str, r: &mut Rng, s: T) -> String {
    let (i, j) = (r.us(R), r.us(C));
    let out = |op: &str, via: &str| format!("\"e\":\"write\",\"op\":\"{op}\",\"via\":\"{via}\",\"a\":\"{name}\",\"i\":{i},\"j\":{j},\"s\":{}", s.js());
    let outs = |op: &str, via: &str, s: T| format!("\"e\":\"write\",\"op\":\"{op}\",\"via\":\"{via}\",\"a\":\"{name}\",\"i\":{i},\"j\":{j},\"s\":{}", s.js());
    match r.us(9) {
        0 => {
            m.set(i, j, s);
            out("element", "set")
        }
        1 => {
            m.set_at(i, j, s);
            out("element", "set_at")
        }
        2 | 3 => {
            let k = i * C + j;
            if r.chance(1, 2) {
                m[k] = s
            } else {
                m.as_mut_slice()[k] = s
            }
            format!("\"e\":\"write\",\"op\":\"index\",\"via\":\"[]\",\"a\":\"{name}\",\"i\":{k},\"s\":{}", s.js())
        }
        4 => {
            m.apply(|q| q.set(i, j, s));
            out("element", "apply")
        }
        5 => {
            m.set_all(s);
            out("fill", "set_all")
        }
        6 => {
            m.clear();
            outs("fill", "clear", T::zero())
        }
        7 => {
            m.set_zero();
            outs("fill", "set_zero", T::zero())
        }
        _ => {
            m.as_mut_slice()[i * C + j] = s;
            out("element", "as_mut_slice")
        }
    }
}
pub fn square<T: Sc, M: MatrixMut<N, N, T>, const N: usize>(m: &mut M, name: &str, r: &mut Rng, s: T, off: T) -> String {
    let (i, j) = (r.us(N), r.us(N));
    let out = |op: &str, via: &str, s: T, off: T| {
        format!("\"e\":\"write\",\"op\":\"{op}\",\"via\":\"{via}\",\"a\":\"{name}\",\"i\":{i},\"j\":{j},\"s\":{},\"off\":{}", s.js(), off.js())
    };
    match r.us(5) {
        0 => {
            m.set_symmetric(i, j, s);
            out("symmetric", "set_symmetric", s, off)
        }
        1 => {
            m.make_identity();
            out("comatrix", "make_identity", T::one(), T::zero())
        }
        2 => {
            m.make_scalar(s);
            out("comatrix", "make_scalar", s, T::zero())
        }
        3 => {
            m.set_diagonal_to_scalar(s);
            out("diagonal", "set_diagonal_to_scalar", s, off)
        }
        _ => {
            m.make_comatrix(s, off);
            out("comatrix", "make_comatrix", s, off)
        }
    }
}

