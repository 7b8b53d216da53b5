use ndarray::*;
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::preproc::PreProc;
fn main() {
    GF::<18>::init().unwrap();
    let val = |(b, l, g): (usize, usize, usize)| GF::<18>::from((100 * b + 10 * l + g + 1) as u32);
    let mut sliced = Array3::from_shape_fn((2, 3, 8), val);
    sliced.slice_collapse(s![.., .., ..5]);
    for keys in [Array3::from_shape_fn((2, 3, 5).f(), val), sliced] {
        let p = PreProc { masks: Array1::from_elem(5, GF::ONE), keys: keys.clone(), randoms: Default::default(), zeros: Default::default(), errors: Default::default() };
        let q: PreProc<18> = bincode::deserialize(&bincode::serialize(&p).unwrap()).unwrap();
        assert_eq!(q.keys, keys);
    }
}
