use std::sync::Arc;
use std::time::Duration;

use anyhow::Result;
use maplit::btreeset;
use openraft::Config;
use openraft::ServerState;
use openraft::SnapshotPolicy;
use openraft_memstore::ClientRequest;
use openraft_memstore::IntoMemClientRequest;

use crate::fixtures::ut_harness;
use crate::fixtures::RaftRouter;

/// A leader that is cut off proposes a log; the others elect another leader and purge the logs:
/// when the old leader comes back, a snapshot replaces its log, and the client still has to be answered.
#[tracing::instrument]
#[test_harness::test(harness = ut_harness)]
async fn write_replaced_by_snapshot_is_answered() -> Result<()> {
    let config = Arc::new(
        Config {
            heartbeat_interval: 100,
            election_timeout_min: 200,
            election_timeout_max: 300,
            enable_tick: false,
            enable_heartbeat: false,
            snapshot_policy: SnapshotPolicy::Never,
            max_in_snapshot_log_to_keep: 0,
            purge_batch_size: 1,
            ..Default::default()
        }
        .validate()?,
    );
    let to = || Some(Duration::from_millis(5_000));

    let mut router = RaftRouter::new(config.clone());
    let mut log_index = router.new_cluster(btreeset! {0,1,2}, btreeset! {}).await?;

    router.set_unreachable(0, true);

    // The old leader proposes a log that can not be committed.
    let n0 = router.get_raft_handle(&0)?;
    let write = {
        let n0 = n0.clone();
        tokio::spawn(async move { n0.client_write(ClientRequest::make_request("cli", 1)).await })
    };
    router.wait(&0, to()).metrics(|m| m.last_log_index == Some(log_index + 1), "proposed").await?;

    // Another leader, which goes on and purges its logs.
    tokio::time::sleep(Duration::from_millis(800)).await;
    let n1 = router.get_raft_handle(&1)?;
    n1.trigger().elect().await?;
    router.wait(&1, to()).state(ServerState::Leader, "node 1 leads").await?;
    log_index += 1;
    router.client_request_many(1, "foo", 10).await?;
    log_index += 10;
    n1.trigger().snapshot().await?;
    router.wait(&1, to()).metrics(|m| m.snapshot.map(|x| x.index) == Some(log_index), "snapshot").await?;
    n1.trigger().purge_log(log_index).await?;
    router.wait(&1, to()).metrics(|m| m.purged.map(|x| x.index) == Some(log_index), "purged").await?;

    // The old leader comes back.
    router.set_unreachable(0, false);
    for _ in 0..50 {
        n1.trigger().heartbeat().await?;
        tokio::time::sleep(Duration::from_millis(100)).await;
        if n0.metrics().borrow().last_applied.map(|x| x.index) >= Some(log_index) {
            break;
        }
    }
    router.wait(&0, to()).metrics(|m| m.snapshot.map(|x| x.index) >= Some(log_index), "installed").await?;

    let res = tokio::time::timeout(Duration::from_millis(5_000), write).await;
    assert!(res.is_ok(), "the client of the replaced log is never answered");
    println!("answered: {:?}", res);
    Ok(())
}
