use scalable_mpc::protocol::network::*;
use std::time::Duration;
use tokio::time::timeout;
#[tokio::main]
async fn main() {
    let id = b"x".to_vec();
    let msg = |d: u8| SendMessage { to: Recipient::One(0), proto_id: b"x".to_vec(), data: vec![d] };
    // two requests wait for one identifier
    let (_, net) = setup_local_network(1).await.remove(0);
    let (n1, n2, i1, i2) = (net.clone(), net.clone(), id.clone(), id.clone());
    let a = tokio::spawn(async move { n1.recv(i1).await.data });
    tokio::time::sleep(Duration::from_millis(100)).await;
    let b = tokio::spawn(async move { n2.recv(i2).await.data });
    tokio::time::sleep(Duration::from_millis(100)).await;
    net.send(msg(1));
    net.send(msg(2));
    let a = timeout(Duration::from_secs(5), a).await.expect("first request forgotten").expect("first request dropped");
    let b = timeout(Duration::from_secs(5), b).await.expect("second request forgotten").unwrap();
    assert_eq!((a, b), (vec![1], vec![2]));
    // a requester goes away
    let (_, net) = setup_local_network(1).await.remove(0);
    assert!(timeout(Duration::from_millis(50), net.recv(id.clone())).await.is_err());
    net.send(msg(3));
    let m = timeout(Duration::from_secs(5), net.recv(id)).await.expect("message lost");
    assert_eq!(m.data, vec![3]);
}
