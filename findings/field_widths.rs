use scalable_mpc::math::galois::GF;
fn main() {
    assert!(GF::<31>::init().is_err());
    assert!(GF::<31>::init().is_err(), "failed initialisation reported once only");
    GF::<18>::init().unwrap();
    GF::<8>::init().unwrap();
    let mut rng = rand::thread_rng();
    assert!((0..64).any(|_| u32::from(GF::<18>::rand(&mut rng)) > 255));
    assert!((0..64).all(|_| u32::from(GF::<8>::rand(&mut rng)) < 256), "sample outside the field");
    assert_eq!(GF::<8>::from(7u32) * GF::ONE, GF::from(7u32));
}
