use scalable_mpc::math::galois::GF;
use serde::de::value::{Error, SeqDeserializer};
use serde::Deserialize;
fn main() {
    GF::<18>::init().unwrap();
    let r = std::panic::catch_unwind(|| {
        let d: SeqDeserializer<_, Error> = SeqDeserializer::new(vec![1u8].into_iter());
        GF::<18>::deserialize(d).is_err()
    });
    assert!(r.unwrap(), "short input accepted");
    match bincode::deserialize::<GF<18>>(&[255, 255, 255]) {
        Ok(x) => assert!(u32::from(x) < GF::<18>::ORDER, "decoded element outside the field"),
        Err(_) => {}
    }
    for v in [1u32 << 18, 1 << 20, u32::MAX] {
        assert!(u32::from(GF::<18>::from(v)) < GF::<18>::ORDER);
    }
}
