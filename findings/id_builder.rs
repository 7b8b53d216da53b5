use scalable_mpc::protocol::ProtocolIDBuilder;
use std::collections::HashSet;
fn main() {
    for num in [1u64, 2, 255, 256, 257, 65536] {
        let id = b"p".to_vec();
        let mut b = ProtocolIDBuilder::new(&id, num);
        let mut seen = HashSet::new();
        for i in 0..num {
            let c = b.next().unwrap_or_else(|| panic!("{} children requested, only {} made", num, i));
            assert!(seen.insert(c));
        }
        while let Some(c) = b.next() { assert!(seen.insert(c)); }
        assert!(b.next().is_none(), "exhausted builder hands out an identifier again");
    }
}
