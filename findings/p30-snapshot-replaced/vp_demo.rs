use std::io::Cursor;

use openraft::storage::RaftStateMachine;
use openraft::CommittedLeaderId;
use openraft::Entry;
use openraft::EntryPayload;
use openraft::LogId;
use openraft::RaftSnapshotBuilder;
use openraft::SnapshotMeta;

use crate::TypeConfig;

fn lid(i: u64) -> LogId<u64> {
    LogId::new(CommittedLeaderId::new(1, 1), i)
}

/// A snapshot builder is created, then a newer snapshot is installed, then the builder finishes.
#[tokio::test]
async fn build_does_not_replace_newer_snapshot() {
    let td = tempfile::TempDir::new().unwrap();
    let (_log, mut sm) = crate::new(td.path()).await;
    let e = |i| Entry::<TypeConfig> {
        log_id: lid(i),
        payload: EntryPayload::Blank,
    };
    sm.apply(vec![e(1), e(2)]).await.unwrap();
    let mut builder = sm.get_snapshot_builder().await;

    sm.apply(vec![e(3), e(4), e(5)]).await.unwrap();
    let newer = sm.get_snapshot_builder().await.build_snapshot().await.unwrap();
    let meta = SnapshotMeta {
        snapshot_id: "installed".to_string(),
        ..newer.meta.clone()
    };
    sm.install_snapshot(&meta, Box::new(Cursor::new(newer.snapshot.into_inner()))).await.unwrap();

    builder.build_snapshot().await.unwrap();
    let cur = sm.get_current_snapshot().await.unwrap().unwrap();
    assert_eq!(cur.meta.last_log_id, Some(lid(5)), "the stored snapshot went backwards");
}
