// One inverter, all masks zero, input keys zero: rows must be the encodings of (k1,1) and (k0,0).
use ndarray::*;
use scalable_mpc::circuit::Circuit;
use scalable_mpc::math::{self, galois::GF};
use scalable_mpc::protocol::{garble, network, preproc::PreProc, MPCContext};
use scalable_mpc::sharing::PackedSharing;
use std::sync::Arc;
const W: u8 = 18;
#[tokio::main]
async fn main() {
    GF::<W>::init().unwrap();
    let path = std::env::temp_dir().join(format!("inv{}.txt", std::process::id()));
    std::fs::write(&path, "1 2\n1 1\n1 1\n\n1 1 0 1 INV\n").unwrap();
    let circ = Circuit::from_bristol_fashion(&path).pack(1);
    std::fs::remove_file(&path).unwrap();
    let (n, t, l, m) = (4u32, 1usize, 1u32, 3usize);
    let pos = PackedSharing::default_pos(n, l);
    let pss = Arc::new(PackedSharing::<W>::new(1, n, &pos));
    let pss_n = Arc::new(PackedSharing::<W>::new(n - 1, n, &pos));
    let nets = network::setup_local_network(n as u16).await;
    let (k0, k1) = (GF::<W>::from(5u32), GF::<W>::from(9u32));
    let mut hs = vec![];
    for (i, (_, net)) in nets.into_iter().enumerate() {
        let ctx = MPCContext { id: i as u16, n: n as usize, t, l: l as usize, lpn_tau: 2, lpn_key_len: 1, lpn_mssg_len: m, pss: pss.clone(), pss_n: pss_n.clone() };
        let d = PreProc::describe(&circ, &ctx);
        let z = |k: usize| std::iter::repeat(GF::ZERO).take(k).collect();
        let mut keys = Array3::from_elem(d.keys, GF::ZERO);
        keys[[0, 0, 1]] = k0;
        keys[[1, 0, 1]] = k1;
        let p = PreProc { masks: Array1::from_elem(d.masks, GF::ZERO), keys, randoms: z(d.randoms), zeros: z(d.zeros), errors: z(d.errors) };
        let g = Arc::new(garble::GarbleContext::new(circ.clone(), ctx));
        hs.push(tokio::spawn(async move { garble::garble(b"x".to_vec(), p, g, net).await }));
    }
    let mut out = vec![];
    for h in hs { out.push(h.await.unwrap().gates.remove(0)); }
    let enc = math::rs_gen_mat::<W>(2, m);
    for (row, label) in [(0usize, [k1, GF::ONE]), (1, [k0, GF::ZERO])] {
        for j in 0..m {
            let sh: Vec<_> = out.iter().map(|g| g[[row, j]]).collect();
            let got = pss_n.semihon_recon(ArrayView1::from(&sh))[0];
            assert_eq!(got, enc[[j, 0]] * label[0] + enc[[j, 1]] * label[1], "row {} element {}", row, j);
        }
    }
}
