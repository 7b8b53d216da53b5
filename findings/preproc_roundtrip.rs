use ndarray::*;
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::preproc::PreProc;
fn main() {
    GF::<18>::init().unwrap();
    for (k, b) in [(3usize, 5usize), (4, 0)] {
        let mut c = 0u32;
        let keys = Array3::from_shape_simple_fn((2, k, b), || { c += 1; GF::<18>::from(c) });
        let p = PreProc { masks: Array1::from_elem(b, GF::ONE), keys: keys.clone(), randoms: Default::default(), zeros: Default::default(), errors: Default::default() };
        let q: PreProc<18> = bincode::deserialize(&bincode::serialize(&p).unwrap()).unwrap();
        if b > 0 { assert_eq!(q.keys, keys); }
        assert_eq!(q.masks.len(), b);
    }
}
