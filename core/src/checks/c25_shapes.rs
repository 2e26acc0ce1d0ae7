// Generated by gen_shapes.py.
use super::*;
use rexecutor::assert_enqueued;

pub const SHAPES: [&[Condition]; 94] = [
    &[Condition::Data],
    &[Condition::Data],
    &[Condition::Metadata],
    &[Condition::Metadata],
    &[Condition::Tags],
    &[Condition::Tags],
    &[Condition::At],
    &[Condition::At],
    &[Condition::After],
    &[Condition::After],
    &[Condition::Before],
    &[Condition::Before],
    &[Condition::Type],
    &[Condition::Type],
    &[Condition::Name],
    &[Condition::Name],
    &[Condition::Data, Condition::Metadata],
    &[Condition::Data, Condition::Tags],
    &[Condition::Data, Condition::At],
    &[Condition::Data, Condition::After],
    &[Condition::Data, Condition::Before],
    &[Condition::Data, Condition::Type],
    &[Condition::Data, Condition::Name],
    &[Condition::Metadata, Condition::Data],
    &[Condition::Metadata, Condition::Tags],
    &[Condition::Metadata, Condition::At],
    &[Condition::Metadata, Condition::After],
    &[Condition::Metadata, Condition::Before],
    &[Condition::Metadata, Condition::Type],
    &[Condition::Metadata, Condition::Name],
    &[Condition::Tags, Condition::Data],
    &[Condition::Tags, Condition::Metadata],
    &[Condition::Tags, Condition::At],
    &[Condition::Tags, Condition::After],
    &[Condition::Tags, Condition::Before],
    &[Condition::Tags, Condition::Type],
    &[Condition::Tags, Condition::Name],
    &[Condition::At, Condition::Data],
    &[Condition::At, Condition::Metadata],
    &[Condition::At, Condition::Tags],
    &[Condition::At, Condition::After],
    &[Condition::At, Condition::Before],
    &[Condition::At, Condition::Type],
    &[Condition::At, Condition::Name],
    &[Condition::After, Condition::Data],
    &[Condition::After, Condition::Metadata],
    &[Condition::After, Condition::Tags],
    &[Condition::After, Condition::At],
    &[Condition::After, Condition::Before],
    &[Condition::After, Condition::Type],
    &[Condition::After, Condition::Name],
    &[Condition::Before, Condition::Data],
    &[Condition::Before, Condition::Metadata],
    &[Condition::Before, Condition::Tags],
    &[Condition::Before, Condition::At],
    &[Condition::Before, Condition::After],
    &[Condition::Before, Condition::Type],
    &[Condition::Before, Condition::Name],
    &[Condition::Type, Condition::Data],
    &[Condition::Type, Condition::Metadata],
    &[Condition::Type, Condition::Tags],
    &[Condition::Type, Condition::At],
    &[Condition::Type, Condition::After],
    &[Condition::Type, Condition::Before],
    &[Condition::Name, Condition::Data],
    &[Condition::Name, Condition::Metadata],
    &[Condition::Name, Condition::Tags],
    &[Condition::Name, Condition::At],
    &[Condition::Name, Condition::After],
    &[Condition::Name, Condition::Before],
    &[Condition::Data, Condition::Metadata, Condition::Tags],
    &[Condition::Tags, Condition::Metadata, Condition::Data],
    &[Condition::Tags, Condition::At, Condition::Type],
    &[Condition::Type, Condition::At, Condition::Tags],
    &[Condition::After, Condition::Before, Condition::Name],
    &[Condition::Name, Condition::Before, Condition::After],
    &[Condition::Before, Condition::After, Condition::Type],
    &[Condition::Type, Condition::After, Condition::Before],
    &[Condition::Type, Condition::Data, Condition::After],
    &[Condition::After, Condition::Data, Condition::Type],
    &[Condition::Name, Condition::Tags, Condition::Before],
    &[Condition::Before, Condition::Tags, Condition::Name],
    &[Condition::Metadata, Condition::Type, Condition::At],
    &[Condition::At, Condition::Type, Condition::Metadata],
    &[Condition::After, Condition::Type, Condition::Before],
    &[Condition::Before, Condition::Type, Condition::After],
    &[Condition::Data, Condition::Metadata, Condition::Tags, Condition::At, Condition::After, Condition::Before, Condition::Type],
    &[Condition::Data, Condition::Metadata, Condition::Tags, Condition::At, Condition::After, Condition::Before, Condition::Type],
    &[Condition::Name, Condition::Before, Condition::After, Condition::At, Condition::Tags, Condition::Metadata, Condition::Data],
    &[Condition::Name, Condition::Before, Condition::After, Condition::At, Condition::Tags, Condition::Metadata, Condition::Data],
    &[Condition::Before, Condition::Tags, Condition::Type, Condition::Data, Condition::After, Condition::Metadata],
    &[Condition::Before, Condition::Tags, Condition::Type, Condition::Data, Condition::After, Condition::Metadata],
    &[Condition::Tags, Condition::Data, Condition::After, Condition::Before, Condition::Name],
    &[Condition::Tags, Condition::Data, Condition::After, Condition::Before, Condition::Name],
];
async fn shape_0(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone()); }
        6 => { assert_enqueued!(with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_1(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(),); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(),); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(),); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(),); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(),); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(),); }
        6 => { assert_enqueued!(with_data: v.data.clone(),); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(),); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(),); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(),); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(),); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(),); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_2(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_3(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(),); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(),); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(),); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(),); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(),); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(),); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(),); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(),); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(),); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(),); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(),); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(),); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_4(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags); }
        6 => { assert_enqueued!(tagged_with: v.tags); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_5(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags,); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags,); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags,); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags,); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags,); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags,); }
        6 => { assert_enqueued!(tagged_with: v.tags,); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags,); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags,); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags,); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags,); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_6(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at); }
        6 => { assert_enqueued!(scheduled_at: v.at); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_7(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at,); }
        6 => { assert_enqueued!(scheduled_at: v.at,); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at,); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at,); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at,); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at,); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_8(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after); }
        6 => { assert_enqueued!(scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_9(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after,); }
        6 => { assert_enqueued!(scheduled_after: v.after,); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after,); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after,); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after,); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after,); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_10(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before); }
        6 => { assert_enqueued!(scheduled_before: v.before); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_11(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before,); }
        6 => { assert_enqueued!(scheduled_before: v.before,); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before,); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before,); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before,); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before,); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_12(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain); }
        6 => { assert_enqueued!(for_executor: Plain); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain); }
        8 => { assert_enqueued!(1 job, for_executor: Plain); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_13(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain,); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain,); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain,); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain,); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain,); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain,); }
        6 => { assert_enqueued!(for_executor: Plain,); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain,); }
        8 => { assert_enqueued!(1 job, for_executor: Plain,); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain,); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain,); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_14(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain"); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain"); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain"); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain"); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain"); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain"); }
        6 => { assert_enqueued!(for_executor: "plain"); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain"); }
        8 => { assert_enqueued!(1 job, for_executor: "plain"); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain"); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain"); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain"); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_15(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain",); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain",); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain",); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain",); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain",); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain",); }
        6 => { assert_enqueued!(for_executor: "plain",); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain",); }
        8 => { assert_enqueued!(1 job, for_executor: "plain",); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain",); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain",); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain",); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_16(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_17(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), tagged_with: v.tags); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), tagged_with: v.tags); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), tagged_with: v.tags); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), tagged_with: v.tags); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), tagged_with: v.tags); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), tagged_with: v.tags); }
        6 => { assert_enqueued!(with_data: v.data.clone(), tagged_with: v.tags); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), tagged_with: v.tags); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), tagged_with: v.tags); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), tagged_with: v.tags); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), tagged_with: v.tags); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), tagged_with: v.tags); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_18(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), scheduled_at: v.at,); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), scheduled_at: v.at,); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), scheduled_at: v.at,); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), scheduled_at: v.at,); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), scheduled_at: v.at,); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), scheduled_at: v.at,); }
        6 => { assert_enqueued!(with_data: v.data.clone(), scheduled_at: v.at,); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), scheduled_at: v.at,); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), scheduled_at: v.at,); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), scheduled_at: v.at,); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), scheduled_at: v.at,); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), scheduled_at: v.at,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_19(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), scheduled_after: v.after); }
        6 => { assert_enqueued!(with_data: v.data.clone(), scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_20(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), scheduled_before: v.before); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), scheduled_before: v.before); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), scheduled_before: v.before); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), scheduled_before: v.before); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), scheduled_before: v.before); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), scheduled_before: v.before); }
        6 => { assert_enqueued!(with_data: v.data.clone(), scheduled_before: v.before); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), scheduled_before: v.before); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), scheduled_before: v.before); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), scheduled_before: v.before); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), scheduled_before: v.before); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), scheduled_before: v.before); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_21(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), for_executor: Plain,); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), for_executor: Plain,); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), for_executor: Plain,); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), for_executor: Plain,); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), for_executor: Plain,); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), for_executor: Plain,); }
        6 => { assert_enqueued!(with_data: v.data.clone(), for_executor: Plain,); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), for_executor: Plain,); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), for_executor: Plain,); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), for_executor: Plain,); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), for_executor: Plain,); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), for_executor: Plain,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_22(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), for_executor: "plain"); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), for_executor: "plain"); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), for_executor: "plain"); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), for_executor: "plain"); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), for_executor: "plain"); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), for_executor: "plain"); }
        6 => { assert_enqueued!(with_data: v.data.clone(), for_executor: "plain"); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), for_executor: "plain"); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), for_executor: "plain"); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), for_executor: "plain"); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), for_executor: "plain"); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), for_executor: "plain"); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_23(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_24(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_25(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), scheduled_at: v.at); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_26(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_27(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), scheduled_before: v.before,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_28(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), for_executor: Plain); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), for_executor: Plain); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), for_executor: Plain); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), for_executor: Plain); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), for_executor: Plain); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), for_executor: Plain); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), for_executor: Plain); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_29(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), for_executor: "plain"); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), for_executor: "plain"); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_30(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, with_data: v.data.clone(),); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(),); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, with_data: v.data.clone(),); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(),); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(),); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(),); }
        6 => { assert_enqueued!(tagged_with: v.tags, with_data: v.data.clone(),); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, with_data: v.data.clone(),); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, with_data: v.data.clone(),); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, with_data: v.data.clone(),); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, with_data: v.data.clone(),); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, with_data: v.data.clone(),); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_31(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_32(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, scheduled_at: v.at); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, scheduled_at: v.at); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at); }
        6 => { assert_enqueued!(tagged_with: v.tags, scheduled_at: v.at); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, scheduled_at: v.at); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, scheduled_at: v.at); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, scheduled_at: v.at); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, scheduled_at: v.at); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, scheduled_at: v.at); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_33(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, scheduled_after: v.after,); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, scheduled_after: v.after,); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, scheduled_after: v.after,); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, scheduled_after: v.after,); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, scheduled_after: v.after,); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, scheduled_after: v.after,); }
        6 => { assert_enqueued!(tagged_with: v.tags, scheduled_after: v.after,); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, scheduled_after: v.after,); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, scheduled_after: v.after,); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, scheduled_after: v.after,); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, scheduled_after: v.after,); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, scheduled_after: v.after,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_34(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, scheduled_before: v.before); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, scheduled_before: v.before); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, scheduled_before: v.before); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, scheduled_before: v.before); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, scheduled_before: v.before); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, scheduled_before: v.before); }
        6 => { assert_enqueued!(tagged_with: v.tags, scheduled_before: v.before); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, scheduled_before: v.before); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, scheduled_before: v.before); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, scheduled_before: v.before); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, scheduled_before: v.before); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, scheduled_before: v.before); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_35(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, for_executor: Plain); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, for_executor: Plain); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, for_executor: Plain); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, for_executor: Plain); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, for_executor: Plain); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, for_executor: Plain); }
        6 => { assert_enqueued!(tagged_with: v.tags, for_executor: Plain); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, for_executor: Plain); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, for_executor: Plain); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, for_executor: Plain); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, for_executor: Plain); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, for_executor: Plain); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_36(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, for_executor: "plain",); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, for_executor: "plain",); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, for_executor: "plain",); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, for_executor: "plain",); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, for_executor: "plain",); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, for_executor: "plain",); }
        6 => { assert_enqueued!(tagged_with: v.tags, for_executor: "plain",); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, for_executor: "plain",); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, for_executor: "plain",); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, for_executor: "plain",); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, for_executor: "plain",); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, for_executor: "plain",); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_37(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, with_data: v.data.clone()); }
        6 => { assert_enqueued!(scheduled_at: v.at, with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_38(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_39(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, tagged_with: v.tags,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, tagged_with: v.tags,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, tagged_with: v.tags,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, tagged_with: v.tags,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, tagged_with: v.tags,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, tagged_with: v.tags,); }
        6 => { assert_enqueued!(scheduled_at: v.at, tagged_with: v.tags,); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, tagged_with: v.tags,); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, tagged_with: v.tags,); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, tagged_with: v.tags,); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, tagged_with: v.tags,); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, tagged_with: v.tags,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_40(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, scheduled_after: v.after); }
        6 => { assert_enqueued!(scheduled_at: v.at, scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_41(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, scheduled_before: v.before); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, scheduled_before: v.before); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, scheduled_before: v.before); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, scheduled_before: v.before); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, scheduled_before: v.before); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, scheduled_before: v.before); }
        6 => { assert_enqueued!(scheduled_at: v.at, scheduled_before: v.before); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, scheduled_before: v.before); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, scheduled_before: v.before); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, scheduled_before: v.before); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, scheduled_before: v.before); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, scheduled_before: v.before); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_42(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, for_executor: Plain,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, for_executor: Plain,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, for_executor: Plain,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, for_executor: Plain,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, for_executor: Plain,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, for_executor: Plain,); }
        6 => { assert_enqueued!(scheduled_at: v.at, for_executor: Plain,); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, for_executor: Plain,); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, for_executor: Plain,); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, for_executor: Plain,); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, for_executor: Plain,); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, for_executor: Plain,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_43(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, for_executor: "plain"); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, for_executor: "plain"); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, for_executor: "plain"); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, for_executor: "plain"); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, for_executor: "plain"); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, for_executor: "plain"); }
        6 => { assert_enqueued!(scheduled_at: v.at, for_executor: "plain"); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, for_executor: "plain"); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, for_executor: "plain"); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, for_executor: "plain"); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, for_executor: "plain"); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, for_executor: "plain"); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_44(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone()); }
        6 => { assert_enqueued!(scheduled_after: v.after, with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_45(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        6 => { assert_enqueued!(scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_46(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, tagged_with: v.tags); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, tagged_with: v.tags); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, tagged_with: v.tags); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, tagged_with: v.tags); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, tagged_with: v.tags); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, tagged_with: v.tags); }
        6 => { assert_enqueued!(scheduled_after: v.after, tagged_with: v.tags); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, tagged_with: v.tags); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, tagged_with: v.tags); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, tagged_with: v.tags); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, tagged_with: v.tags); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, tagged_with: v.tags); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_47(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, scheduled_at: v.at); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, scheduled_at: v.at); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, scheduled_at: v.at); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, scheduled_at: v.at); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, scheduled_at: v.at); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, scheduled_at: v.at); }
        6 => { assert_enqueued!(scheduled_after: v.after, scheduled_at: v.at); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, scheduled_at: v.at); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, scheduled_at: v.at); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, scheduled_at: v.at); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, scheduled_at: v.at); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, scheduled_at: v.at); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_48(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, scheduled_before: v.before,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, scheduled_before: v.before,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before,); }
        6 => { assert_enqueued!(scheduled_after: v.after, scheduled_before: v.before,); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, scheduled_before: v.before,); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, scheduled_before: v.before,); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, scheduled_before: v.before,); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, scheduled_before: v.before,); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, scheduled_before: v.before,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_49(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, for_executor: Plain); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, for_executor: Plain); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, for_executor: Plain); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, for_executor: Plain); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, for_executor: Plain); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, for_executor: Plain); }
        6 => { assert_enqueued!(scheduled_after: v.after, for_executor: Plain); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, for_executor: Plain); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, for_executor: Plain); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, for_executor: Plain); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, for_executor: Plain); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, for_executor: Plain); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_50(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, for_executor: "plain"); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, for_executor: "plain"); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, for_executor: "plain"); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, for_executor: "plain"); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, for_executor: "plain"); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, for_executor: "plain"); }
        6 => { assert_enqueued!(scheduled_after: v.after, for_executor: "plain"); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, for_executor: "plain"); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, for_executor: "plain"); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, for_executor: "plain"); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, for_executor: "plain"); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, for_executor: "plain"); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_51(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, with_data: v.data.clone(),); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, with_data: v.data.clone(),); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, with_data: v.data.clone(),); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, with_data: v.data.clone(),); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, with_data: v.data.clone(),); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, with_data: v.data.clone(),); }
        6 => { assert_enqueued!(scheduled_before: v.before, with_data: v.data.clone(),); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, with_data: v.data.clone(),); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, with_data: v.data.clone(),); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, with_data: v.data.clone(),); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, with_data: v.data.clone(),); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, with_data: v.data.clone(),); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_52(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_53(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, tagged_with: v.tags); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, tagged_with: v.tags); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags); }
        6 => { assert_enqueued!(scheduled_before: v.before, tagged_with: v.tags); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, tagged_with: v.tags); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, tagged_with: v.tags); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, tagged_with: v.tags); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, tagged_with: v.tags); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, tagged_with: v.tags); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_54(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, scheduled_at: v.at,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, scheduled_at: v.at,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, scheduled_at: v.at,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, scheduled_at: v.at,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, scheduled_at: v.at,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, scheduled_at: v.at,); }
        6 => { assert_enqueued!(scheduled_before: v.before, scheduled_at: v.at,); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, scheduled_at: v.at,); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, scheduled_at: v.at,); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, scheduled_at: v.at,); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, scheduled_at: v.at,); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, scheduled_at: v.at,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_55(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after); }
        6 => { assert_enqueued!(scheduled_before: v.before, scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_56(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, for_executor: Plain); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, for_executor: Plain); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, for_executor: Plain); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, for_executor: Plain); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, for_executor: Plain); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, for_executor: Plain); }
        6 => { assert_enqueued!(scheduled_before: v.before, for_executor: Plain); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, for_executor: Plain); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, for_executor: Plain); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, for_executor: Plain); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, for_executor: Plain); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, for_executor: Plain); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_57(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, for_executor: "plain",); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, for_executor: "plain",); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, for_executor: "plain",); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, for_executor: "plain",); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, for_executor: "plain",); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, for_executor: "plain",); }
        6 => { assert_enqueued!(scheduled_before: v.before, for_executor: "plain",); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, for_executor: "plain",); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, for_executor: "plain",); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, for_executor: "plain",); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, for_executor: "plain",); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, for_executor: "plain",); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_58(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, with_data: v.data.clone()); }
        6 => { assert_enqueued!(for_executor: Plain, with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_59(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(for_executor: Plain, with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_60(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, tagged_with: v.tags,); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, tagged_with: v.tags,); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, tagged_with: v.tags,); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, tagged_with: v.tags,); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, tagged_with: v.tags,); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, tagged_with: v.tags,); }
        6 => { assert_enqueued!(for_executor: Plain, tagged_with: v.tags,); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, tagged_with: v.tags,); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, tagged_with: v.tags,); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, tagged_with: v.tags,); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, tagged_with: v.tags,); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, tagged_with: v.tags,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_61(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, scheduled_at: v.at); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, scheduled_at: v.at); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, scheduled_at: v.at); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, scheduled_at: v.at); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, scheduled_at: v.at); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, scheduled_at: v.at); }
        6 => { assert_enqueued!(for_executor: Plain, scheduled_at: v.at); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, scheduled_at: v.at); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, scheduled_at: v.at); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, scheduled_at: v.at); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, scheduled_at: v.at); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, scheduled_at: v.at); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_62(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, scheduled_after: v.after); }
        6 => { assert_enqueued!(for_executor: Plain, scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_63(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, scheduled_before: v.before,); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, scheduled_before: v.before,); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, scheduled_before: v.before,); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, scheduled_before: v.before,); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, scheduled_before: v.before,); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, scheduled_before: v.before,); }
        6 => { assert_enqueued!(for_executor: Plain, scheduled_before: v.before,); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, scheduled_before: v.before,); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, scheduled_before: v.before,); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, scheduled_before: v.before,); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, scheduled_before: v.before,); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, scheduled_before: v.before,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_64(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", with_data: v.data.clone()); }
        6 => { assert_enqueued!(for_executor: "plain", with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_65(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(for_executor: "plain", with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_66(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", tagged_with: v.tags,); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", tagged_with: v.tags,); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", tagged_with: v.tags,); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", tagged_with: v.tags,); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", tagged_with: v.tags,); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", tagged_with: v.tags,); }
        6 => { assert_enqueued!(for_executor: "plain", tagged_with: v.tags,); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", tagged_with: v.tags,); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", tagged_with: v.tags,); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", tagged_with: v.tags,); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", tagged_with: v.tags,); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", tagged_with: v.tags,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_67(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", scheduled_at: v.at); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", scheduled_at: v.at); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", scheduled_at: v.at); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", scheduled_at: v.at); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", scheduled_at: v.at); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", scheduled_at: v.at); }
        6 => { assert_enqueued!(for_executor: "plain", scheduled_at: v.at); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", scheduled_at: v.at); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", scheduled_at: v.at); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", scheduled_at: v.at); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", scheduled_at: v.at); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", scheduled_at: v.at); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_68(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", scheduled_after: v.after); }
        6 => { assert_enqueued!(for_executor: "plain", scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_69(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", scheduled_before: v.before,); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", scheduled_before: v.before,); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", scheduled_before: v.before,); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", scheduled_before: v.before,); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", scheduled_before: v.before,); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", scheduled_before: v.before,); }
        6 => { assert_enqueued!(for_executor: "plain", scheduled_before: v.before,); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", scheduled_before: v.before,); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", scheduled_before: v.before,); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", scheduled_before: v.before,); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", scheduled_before: v.before,); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", scheduled_before: v.before,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_70(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        6 => { assert_enqueued!(with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_71(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        6 => { assert_enqueued!(tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_72(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        6 => { assert_enqueued!(tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, scheduled_at: v.at, for_executor: Plain,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_73(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        6 => { assert_enqueued!(for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, scheduled_at: v.at, tagged_with: v.tags); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_74(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        6 => { assert_enqueued!(scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_75(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        6 => { assert_enqueued!(for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_76(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        6 => { assert_enqueued!(scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, scheduled_after: v.after, for_executor: Plain,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_77(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        6 => { assert_enqueued!(for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, scheduled_after: v.after, scheduled_before: v.before); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_78(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        6 => { assert_enqueued!(for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        7 => { assert_enqueued!(0 jobs, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        8 => { assert_enqueued!(1 job, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        9 => { assert_enqueued!(1 jobs, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        10 => { assert_enqueued!(2 jobs, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        11 => { assert_enqueued!(3 jobs, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_79(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        6 => { assert_enqueued!(scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, with_data: v.data.clone(), for_executor: Plain); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_80(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        6 => { assert_enqueued!(for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", tagged_with: v.tags, scheduled_before: v.before,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_81(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        6 => { assert_enqueued!(scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: "plain"); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_82(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        2 => { assert_enqueued!(1 job, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        6 => { assert_enqueued!(with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        7 => { assert_enqueued!(0 jobs, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        8 => { assert_enqueued!(1 job, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        9 => { assert_enqueued!(1 jobs, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        10 => { assert_enqueued!(2 jobs, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        11 => { assert_enqueued!(3 jobs, with_metadata: v.metadata.clone(), for_executor: Plain, scheduled_at: v.at,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_83(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, scheduled_at: v.at, for_executor: Plain, with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_84(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        6 => { assert_enqueued!(scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        7 => { assert_enqueued!(0 jobs, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        8 => { assert_enqueued!(1 job, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        9 => { assert_enqueued!(1 jobs, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        10 => { assert_enqueued!(2 jobs, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        11 => { assert_enqueued!(3 jobs, scheduled_after: v.after, for_executor: Plain, scheduled_before: v.before,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_85(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        6 => { assert_enqueued!(scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, for_executor: Plain, scheduled_after: v.after); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_86(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        6 => { assert_enqueued!(with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_87(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        1 => { assert_enqueued!(0 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        2 => { assert_enqueued!(1 job, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        3 => { assert_enqueued!(1 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        4 => { assert_enqueued!(2 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        5 => { assert_enqueued!(3 jobs, to: backend, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        6 => { assert_enqueued!(with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        7 => { assert_enqueued!(0 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        8 => { assert_enqueued!(1 job, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        9 => { assert_enqueued!(1 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        10 => { assert_enqueued!(2 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        11 => { assert_enqueued!(3 jobs, with_data: v.data.clone(), with_metadata: v.metadata.clone(), tagged_with: v.tags, scheduled_at: v.at, scheduled_after: v.after, scheduled_before: v.before, for_executor: Plain,); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_88(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        6 => { assert_enqueued!(for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_89(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        1 => { assert_enqueued!(0 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        2 => { assert_enqueued!(1 job, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        3 => { assert_enqueued!(1 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        4 => { assert_enqueued!(2 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        5 => { assert_enqueued!(3 jobs, to: backend, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        6 => { assert_enqueued!(for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        7 => { assert_enqueued!(0 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        8 => { assert_enqueued!(1 job, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        9 => { assert_enqueued!(1 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        10 => { assert_enqueued!(2 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        11 => { assert_enqueued!(3 jobs, for_executor: "plain", scheduled_before: v.before, scheduled_after: v.after, scheduled_at: v.at, tagged_with: v.tags, with_metadata: v.metadata.clone(), with_data: v.data.clone(),); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_90(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        6 => { assert_enqueued!(scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone()); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_91(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        1 => { assert_enqueued!(0 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        2 => { assert_enqueued!(1 job, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        3 => { assert_enqueued!(1 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        4 => { assert_enqueued!(2 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        5 => { assert_enqueued!(3 jobs, to: backend, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        6 => { assert_enqueued!(scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        7 => { assert_enqueued!(0 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        8 => { assert_enqueued!(1 job, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        9 => { assert_enqueued!(1 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        10 => { assert_enqueued!(2 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        11 => { assert_enqueued!(3 jobs, scheduled_before: v.before, tagged_with: v.tags, for_executor: Plain, with_data: v.data.clone(), scheduled_after: v.after, with_metadata: v.metadata.clone(),); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_92(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        6 => { assert_enqueued!(tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain"); }
        _ => unreachable!("{backend:p}"),
    }
}
async fn shape_93(how: usize, v: &Values, backend: &InMemoryBackend) {
    match how {
        0 => { assert_enqueued!(to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        1 => { assert_enqueued!(0 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        2 => { assert_enqueued!(1 job, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        3 => { assert_enqueued!(1 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        4 => { assert_enqueued!(2 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        5 => { assert_enqueued!(3 jobs, to: backend, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        6 => { assert_enqueued!(tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        7 => { assert_enqueued!(0 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        8 => { assert_enqueued!(1 job, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        9 => { assert_enqueued!(1 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        10 => { assert_enqueued!(2 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        11 => { assert_enqueued!(3 jobs, tagged_with: v.tags, with_data: v.data.clone(), scheduled_after: v.after, scheduled_before: v.before, for_executor: "plain",); }
        _ => unreachable!("{backend:p}"),
    }
}
pub fn assert(shape: usize, how: usize, values: &Values, backend: &InMemoryBackend) {
    match shape {
        0 => now(shape_0(how, values, backend)),
        1 => now(shape_1(how, values, backend)),
        2 => now(shape_2(how, values, backend)),
        3 => now(shape_3(how, values, backend)),
        4 => now(shape_4(how, values, backend)),
        5 => now(shape_5(how, values, backend)),
        6 => now(shape_6(how, values, backend)),
        7 => now(shape_7(how, values, backend)),
        8 => now(shape_8(how, values, backend)),
        9 => now(shape_9(how, values, backend)),
        10 => now(shape_10(how, values, backend)),
        11 => now(shape_11(how, values, backend)),
        12 => now(shape_12(how, values, backend)),
        13 => now(shape_13(how, values, backend)),
        14 => now(shape_14(how, values, backend)),
        15 => now(shape_15(how, values, backend)),
        16 => now(shape_16(how, values, backend)),
        17 => now(shape_17(how, values, backend)),
        18 => now(shape_18(how, values, backend)),
        19 => now(shape_19(how, values, backend)),
        20 => now(shape_20(how, values, backend)),
        21 => now(shape_21(how, values, backend)),
        22 => now(shape_22(how, values, backend)),
        23 => now(shape_23(how, values, backend)),
        24 => now(shape_24(how, values, backend)),
        25 => now(shape_25(how, values, backend)),
        26 => now(shape_26(how, values, backend)),
        27 => now(shape_27(how, values, backend)),
        28 => now(shape_28(how, values, backend)),
        29 => now(shape_29(how, values, backend)),
        30 => now(shape_30(how, values, backend)),
        31 => now(shape_31(how, values, backend)),
        32 => now(shape_32(how, values, backend)),
        33 => now(shape_33(how, values, backend)),
        34 => now(shape_34(how, values, backend)),
        35 => now(shape_35(how, values, backend)),
        36 => now(shape_36(how, values, backend)),
        37 => now(shape_37(how, values, backend)),
        38 => now(shape_38(how, values, backend)),
        39 => now(shape_39(how, values, backend)),
        40 => now(shape_40(how, values, backend)),
        41 => now(shape_41(how, values, backend)),
        42 => now(shape_42(how, values, backend)),
        43 => now(shape_43(how, values, backend)),
        44 => now(shape_44(how, values, backend)),
        45 => now(shape_45(how, values, backend)),
        46 => now(shape_46(how, values, backend)),
        47 => now(shape_47(how, values, backend)),
        48 => now(shape_48(how, values, backend)),
        49 => now(shape_49(how, values, backend)),
        50 => now(shape_50(how, values, backend)),
        51 => now(shape_51(how, values, backend)),
        52 => now(shape_52(how, values, backend)),
        53 => now(shape_53(how, values, backend)),
        54 => now(shape_54(how, values, backend)),
        55 => now(shape_55(how, values, backend)),
        56 => now(shape_56(how, values, backend)),
        57 => now(shape_57(how, values, backend)),
        58 => now(shape_58(how, values, backend)),
        59 => now(shape_59(how, values, backend)),
        60 => now(shape_60(how, values, backend)),
        61 => now(shape_61(how, values, backend)),
        62 => now(shape_62(how, values, backend)),
        63 => now(shape_63(how, values, backend)),
        64 => now(shape_64(how, values, backend)),
        65 => now(shape_65(how, values, backend)),
        66 => now(shape_66(how, values, backend)),
        67 => now(shape_67(how, values, backend)),
        68 => now(shape_68(how, values, backend)),
        69 => now(shape_69(how, values, backend)),
        70 => now(shape_70(how, values, backend)),
        71 => now(shape_71(how, values, backend)),
        72 => now(shape_72(how, values, backend)),
        73 => now(shape_73(how, values, backend)),
        74 => now(shape_74(how, values, backend)),
        75 => now(shape_75(how, values, backend)),
        76 => now(shape_76(how, values, backend)),
        77 => now(shape_77(how, values, backend)),
        78 => now(shape_78(how, values, backend)),
        79 => now(shape_79(how, values, backend)),
        80 => now(shape_80(how, values, backend)),
        81 => now(shape_81(how, values, backend)),
        82 => now(shape_82(how, values, backend)),
        83 => now(shape_83(how, values, backend)),
        84 => now(shape_84(how, values, backend)),
        85 => now(shape_85(how, values, backend)),
        86 => now(shape_86(how, values, backend)),
        87 => now(shape_87(how, values, backend)),
        88 => now(shape_88(how, values, backend)),
        89 => now(shape_89(how, values, backend)),
        90 => now(shape_90(how, values, backend)),
        91 => now(shape_91(how, values, backend)),
        92 => now(shape_92(how, values, backend)),
        93 => now(shape_93(how, values, backend)),
        _ => unreachable!(),
    }
}
