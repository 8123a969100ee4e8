//! Where the nodes of the tree live, and what is read where nothing has been written yet.
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::commitment::poseidon_hash::full_poseidon2_hash;
use elusiv::fields::{fr_to_u256_le, u256_to_fr_skip_mr};
use elusiv::state::storage::{mt_array_index, EMPTY_TREE, MT_COMMITMENT_COUNT, MT_SIZE, VALUES_PER_STORAGE_SUB_ACCOUNT};

/// Two nodes never share a place, and every place is inside of the tree
#[no_mangle]
pub extern "C" fn c06_places_distinct() {
    let (l1, l2): (u8, u8) = (any(), any());
    let (i1, i2): (u32, u32) = (any(), any());
    assume(l1 <= 20 && l2 <= 20);
    let (l1, l2) = (pin(l1 as u64) as u8, pin(l2 as u64) as u8);
    assume(i1 >> l1 == 0 && i2 >> l2 == 0);
    noabort(true);
    let (a, b) = (mt_array_index(i1 as usize, l1 as usize), mt_array_index(i2 as usize, l2 as usize));
    prop!(a < MT_SIZE && b < MT_SIZE, "a node is inside of the tree");
    prop!((a == b) == (l1 == l2 && i1 == i2), "two nodes never share a place");
    // the tree is stored top-down, and children are adjacent
    if l1 > 0 { prop!((mt_array_index((i1 >> 1) as usize, l1 as usize - 1) + 1) * 2 - 1 + (i1 & 1) as usize == a, "parent and child are where the layout says"); }
    reach!("compared");
}

/// A node that was not written yet reads as the root of an empty subtree, no other node does
#[no_mangle]
pub extern "C" fn c06_defaults() {
    let level: u8 = any();
    let index: u32 = any();
    let ptr: u32 = any();
    assume(level <= 20 && ptr as usize <= MT_COMMITMENT_COUNT);
    let level = pin(level as u64) as u8;
    assume(index >> level == 0);
    let mut s = storage_bare();
    s.set_next_commitment_ptr(&ptr);
    noabort(true);
    let first_leaf = (index as u64) << (20 - level);
    match s.get_node(index as usize, level as usize) {
        Ok(v) => {
            prop!(ptr as u64 <= first_leaf, "only a subtree without leaves reads as empty");
            prop!(v == EMPTY_TREE[20 - level as usize], "an empty subtree has its default root");
            reach!("default");
        }
        Err(_) => { prop!(ptr as u64 > first_leaf, "an empty subtree can be read without its child account"); reach!("stored"); }
    }
    prop!(s.is_full() == (ptr as usize == MT_COMMITMENT_COUNT), "the tree is full when all leaves are taken");
}

fn node_of(a: usize) -> (usize, usize) { let mut l = 0; while (1usize << (l + 1)) - 1 <= a { l += 1; } (a + 1 - (1 << l), l) }

/// Written nodes are read back, also around the borders of the child accounts, and writing one leaves the others alone
#[no_mangle]
pub extern "C" fn c06_set_get() {
    let a: u32 = any();
    let d: u8 = any();
    let (v1, v2): ([u8; 32], [u8; 32]) = (any(), any());
    assume((a as usize) < MT_SIZE - 1 && d <= 2);
    let v = VALUES_PER_STORAGE_SUB_ACCOUNT as u32;
    assume((a % v == v - 1 || a % v == 0 || a % v == 1 || a < 3 || a as usize > MT_SIZE - 4) && a > 0);
    let a = pin(a as u64) as usize;
    let b = a - 1 + pin(d as u64) as usize;
    let mut s = storage_full();
    s.set_next_commitment_ptr(&(MT_COMMITMENT_COUNT as u32));
    let ((ia, la), (ib, lb)) = (node_of(a), node_of(b));
    noabort(true);
    prop!(s.set_node(&v1, ia, la).is_ok() && s.set_node(&v2, ib, lb).is_ok(), "a node can be written");
    prop!(s.get_node(ib, lb) == Ok(v2), "a written node is read back");
    prop!(a == b || s.get_node(ia, la) == Ok(v1), "writing a node leaves the others alone");
    if a != b { reach!("neighbours"); }
}

/// The opening of a leaf consists of the siblings on its path, with defaults where there is nothing yet
#[no_mangle]
pub extern "C" fn c06_opening() {
    let x: u32 = any();
    let ptr: u32 = any();
    let tag: u32 = any();
    assume((x as usize) < MT_COMMITMENT_COUNT && ptr as usize <= MT_COMMITMENT_COUNT);
    assume(x < 3 || x as usize > MT_COMMITMENT_COUNT - 3 || x == 0x7ffff || x == 0x80000 || x == 0x2a5d3 || x == 83887);
    let x = pin(x as u64) as usize;
    assume(ptr as usize <= x + 20 && ptr as usize + 20 >= x);
    let mut s = storage_full();
    s.set_next_commitment_ptr(&ptr);
    let sib = |i: usize| { let mut v = [0u8; 32]; v[..4].copy_from_slice(&(tag ^ (i as u32)).to_le_bytes()); v[31] = 0x77; v };
    for i in 0..20 { s.set_node(&sib(i), (x >> i) ^ 1, 20 - i).unwrap(); }
    noabort(true);
    match s.get_mt_opening(x) {
        Ok(o) => for i in 0..20 {
            let empty = ptr as usize <= ((x >> i) ^ 1) << i;
            let e = if empty { EMPTY_TREE[i] } else { sib(i) };
            prop!(o[i] == e, "the opening holds the sibling of each node on the path");
        },
        Err(_) => { prop!(false, "an opening can be computed"); }
    }
    reach!("opened");
}

/// The default nodes are those of a tree of empty leaves
#[no_mangle]
pub extern "C" fn c06_empty_tree() {
    let zero = u256_to_fr_skip_mr(&[0; 32]);
    prop!(fr_to_u256_le(&full_poseidon2_hash(zero, zero)) == EMPTY_TREE[0], "the empty leaf");
    let i: u8 = any();
    assume(i < 20);
    let i = pin(i as u64) as usize;
    let c = u256_to_fr_skip_mr(&EMPTY_TREE[i]);
    prop!(fr_to_u256_le(&full_poseidon2_hash(c, c)) == EMPTY_TREE[i + 1], "an empty subtree's root is the hash of its two empty subtrees");
    reach!("checked");
}
