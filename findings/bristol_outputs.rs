use scalable_mpc::circuit::Circuit;
fn main() {
    let path = std::env::temp_dir().join(format!("o{}.txt", std::process::id()));
    std::fs::write(&path, "2 4\n1 2\n2 1 1\n\n2 1 0 1 2 XOR\n2 1 0 1 3 AND\n").unwrap();
    let c = Circuit::from_bristol_fashion(&path);
    std::fs::remove_file(&path).unwrap();
    assert_eq!(c.outputs(), &[vec![2], vec![3]]);
    assert_eq!(c.eval(&[vec![true, true]]), vec![vec![false], vec![true]]);
}
