use std::sync::Arc;
use std::time::Duration;

use maplit::btreeset;
use openraft::raft::AppendEntriesRequest;
use openraft::testing::blank_ent;
use openraft::testing::log_id;
use openraft::Config;
use openraft::Vote;

use crate::fixtures::ut_harness;
use crate::fixtures::RaftRouter;

/// A snapshot arrives at a node that already accepted entries of the same leader that follow the snapshot:
/// the node goes on answering.
#[tracing::instrument]
#[test_harness::test(harness = ut_harness)]
async fn snapshot_behind_accepted_logs() -> anyhow::Result<()> {
    let config = Arc::new(
        Config {
            enable_heartbeat: false,
            enable_elect: false,
            ..Default::default()
        }
        .validate()?,
    );
    let mut router = RaftRouter::new(config.clone());
    let first = router.new_cluster(btreeset! {0,1,2}, btreeset! {}).await?;
    router.set_unreachable(2, true);
    let last = first + router.client_request_many(0, "foo", 3).await?;
    let n0 = router.get_raft_handle(&0)?;
    n0.trigger().snapshot().await?;
    router.wait(&0, Some(Duration::from_secs(2))).snapshot(log_id(1, 0, last), "snapshot").await?;
    let snap = n0.get_snapshot().await?.unwrap();

    let n2 = router.get_raft_handle(&2)?;
    let vote = Vote::new_committed(1, 0);
    let (_, st) = router.get_storage_handle(&2)?;
    drop(st);
    let resp = n2
        .append_entries(AppendEntriesRequest {
            vote,
            prev_log_id: Some(log_id(1, 0, first)),
            entries: (first + 1..=last + 2).map(|i| blank_ent(1, 0, i)).collect(),
            leader_commit: None,
        })
        .await?;
    println!("appended: {}", resp);

    n2.install_full_snapshot(vote, snap).await?;
    println!("installed");

    let heartbeat = n2.append_entries(AppendEntriesRequest {
        vote,
        prev_log_id: Some(log_id(1, 0, last + 2)),
        entries: vec![],
        leader_commit: None,
    });
    let resp = tokio::time::timeout(Duration::from_secs(3), heartbeat).await;
    println!("heartbeat: {:?}", resp);
    assert!(matches!(resp, Ok(Ok(r)) if r.is_success()));
    Ok(())
}
