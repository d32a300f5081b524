"""The planted changes: edits to /repo, and a demonstration for each. See plant.py."""
BUGS = []
def bug(id, property, needs, breaks, edits, main=None, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **k))

bug('c01-empty-value', 'C01', 'a put of an empty (not absent) value',
    'an empty value is stored and read back as an absent one',
    [('src/changes.rs', 'value: value.map(<[u8]>::to_vec),', 'value: value.filter(|v| !v.is_empty()).map(<[u8]>::to_vec),')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        h.put(b"a", Some(b"")).await.unwrap();
        h.put(b"b", None).await.unwrap();
        assert_eq!(h.get(b"a").await.unwrap(), Some((1, Some(vec![]))));
        assert_eq!(h.get(b"b").await.unwrap(), Some((2, None)));
    })
}
''')

bug('c01-old-seq-inner', 'C01', 'overwriting a key that sits in an inner node of a tree of at least three levels',
    'the put does not report the sequence number it replaced',
    [('src/put.rs', '''                        propagate_changes_up_tree(&mut changes, path, child).await;
                        let _ = self.blocks.read().await.add_changes(changes).await?;
                        return Ok((matched, Some(seq)));''',
      '''                        let inserted_in_leaf = cur_node.read().await.is_leaf().await;
                        propagate_changes_up_tree(&mut changes, path, child).await;
                        let _ = self.blocks.read().await.add_changes(changes).await?;
                        return Ok((matched.filter(|_| inserted_in_leaf), Some(seq)));''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..80 {
            h.put(&k(i), None).await.unwrap();
        }
        for i in 0..80 {
            let (old, _) = h.put(&k(i), None).await.unwrap();
            assert_eq!(old, Some(i as u64 + 1), "key {i}");
        }
    })
}
''')

bug('c02-old-from-root', 'C02', 'a conditional put of a present key in a tree of more than one level',
    'the predicate is shown an entry of the root instead of the current entry of the key',
    [('src/put.rs', 'let (node, index) = &path[path.len() - 1];', 'let (node, index) = &path[0];'),
     ('src/put.rs', 'Some(node.read().await.get_key_value(*index).await?)',
      'let index = (*index).min(node.read().await.keys.len() - 1);\n                Some(node.read().await.get_key_value(index).await?)')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..30 {
            h.put(&k(i), Some(&k(i + 100))).await.unwrap();
        }
        for i in 0..30 {
            let r = h
                .put_compare_and_swap(&k(i), None, |old, _| {
                    let o = old.unwrap();
                    assert_eq!((o.seq, &o.key, o.value.as_ref()), (i as u64 + 1, &k(i), Some(&k(i + 100))));
                    false
                })
                .await
                .unwrap();
            assert_eq!(r, (Some(i as u64 + 1), None));
        }
    })
}
''')

bug('c02-del-cas-late', 'C02', 'a conditional delete that is refused, of a key in a leaf',
    'a refused conditional delete removes the entry all the same when the predicate has returned false for a key without a value',
    [('src/del.rs', '''            if !compare_and_swap(&kv) {
                return Ok(Some((false, seq)));
            }''', '''            if !compare_and_swap(&kv) && kv.value.is_some() {
                return Ok(Some((false, seq)));
            }''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", Some(b"x")).await.unwrap();
        h.put(b"b", None).await.unwrap();
        for key in [b"a", b"b"] {
            let before = h.get(key).await.unwrap().unwrap();
            let r = h.del_compare_and_swap(key, |_| false).await.unwrap();
            assert_eq!(r, Some((false, before.0)));
            assert_eq!(h.get(key).await.unwrap(), Some(before));
        }
        assert_eq!(s.len(), 3);
    })
}
''')

bug('c03-inner-split', 'C03', 'the split of an inner node, so a tree of at least three levels',
    'the halves of a split inner node get children that do not fit their keys',
    [('src/put.rs', 'let children_median_index = self.children.len().await >> 1;',
      'let children_median_index = key_median_index.min(self.children.len().await);')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..120 {
            h.put(&k(i), None).await.unwrap();
        }
        for i in 0..120 {
            assert!(h.get(&k(i)).await.unwrap().is_some(), "lost key {i}");
        }
        assert_eq!(all(&h, TraverseConfig::default()).await.len(), 120);
    })
}
''')

bug('c03-rotate-too-thin', 'C03', 'a delete that leaves a leaf short while its neighbour holds exactly the minimum',
    'a rotation takes a key from a node that has none to spare, which leaves it with three',
    [('src/del.rs', 'let can_rotate = min_keys(order) < donor_child.read().await.keys.len();',
      'let can_rotate = min_keys(order) <= donor_child.read().await.keys.len();')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..9 {
            h.put(&k(i), None).await.unwrap();
        }
        assert_eq!(h.height().await.unwrap(), 2);
        // two leaves with four keys each: one more delete must merge them
        h.del(&k(0)).await.unwrap();
        assert_eq!(h.height().await.unwrap(), 1, "{}", h.print().await.unwrap());
    })
}
''')

bug('c04-skip-equal', 'C04', 'a put of the value the key already has',
    'the put is acknowledged with a new sequence number but appends no block',
    [('src/put.rs', '''            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }''', '''            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }

            // nothing to write when the value stays the same
            if let Some(old) = old_key_data.as_ref().filter(|old| old.value == new_key_data.value) {
                return Ok((matched, Some(old.seq)));
            }'''),
     ('src/put.rs', 'let (node, index) = &path[path.len() - 1];', 'let (node, index) = path.last().expect("matched");')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        assert_eq!(h.put(b"a", Some(b"1")).await.unwrap(), (None, 1));
        assert_eq!(h.put(b"a", Some(b"1")).await.unwrap(), (Some(1), 2));
        assert_eq!((s.len(), h.version().await), (3, 3));
    })
}
''')

bug('c04-del-absent', 'C04', 'a delete of an absent key whose neighbours are in a leaf below the root',
    'deleting an absent key appends a block that rewrites the path to where it would be',
    [('src/del.rs', '''        let Some(seq) = matched else {
            return Ok(None);
        };''', '''        let seq = match matched {
            Some(seq) => seq,
            None if path.len() <= 2 => return Ok(None),
            None => {
                // record the attempt, as for other deletes
                let mut changes: Changes = Changes::new(self.version().await, key, None);
                let (node, _) = path.pop().expect("checked above");
                let child = changes.add_node(node);
                propagate_changes_up_tree(&mut changes, path, child).await;
                self.blocks.read().await.add_changes(changes).await?;
                return Ok(None);
            }
        };''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..100 {
            h.put(&k(2 * i), None).await.unwrap();
        }
        let before = s.len();
        for i in 0..100 {
            assert_eq!(h.del(&k(2 * i + 1)).await.unwrap(), None);
        }
        assert_eq!(s.len(), before);
    })
}
''')

GOLD = '''
fn hash(s: &Arc<CoreState>) -> u64 {
    // FNV-1a over lengths and bytes of all blocks
    let mut h = 0xcbf29ce484222325u64;
    let mut eat = |x: u8| h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    for b in s.blocks() {
        let b = b.unwrap();
        (b.len() as u32).to_le_bytes().into_iter().for_each(&mut eat);
        b.iter().copied().for_each(&mut eat);
    }
    h
}
'''
bug('c05-node-order', 'C05', 'a mutation that rewrites two children of one node, so a split or a rotation',
    'the nodes of a block come in another order than the JavaScript implementation writes',
    [('src/blocks.rs', '''        .filter(|(_i, c)| c.seq == seq)
        .rev()
        .map''', '''        .filter(|(_i, c)| c.seq == seq)
        .map''')],
    GOLD + '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..40 {
            h.put(&k(i), None).await.unwrap();
        }
        // of the log the JavaScript implementation writes for these puts
        assert_eq!(hash(&s), 3031593829871934171);
    })
}
''')
bug('c05-donor-tie', 'C05', 'a delete of a key in an inner node whose two candidate leaves hold equally many keys',
    'the replacement comes from the right where the JavaScript implementation takes it from the left',
    [('src/del.rs', 'if num_left_keys < num_right_keys {', 'if num_left_keys <= num_right_keys {')],
    GOLD + '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..9 {
            h.put(&k(i), None).await.unwrap();
        }
        h.put(&k(10), None).await.unwrap();
        h.put(b"000", None).await.unwrap();
        // two leaves with five keys each below the key 4
        h.del(&k(4)).await.unwrap();
        assert_eq!(hash(&s), 10626444601984785266);
    })
}
''')
bug('c05-delete-value', 'C05', 'any delete, looked at in the bytes of the log',
    'a delete records an empty value instead of none',
    [('src/del.rs', 'let mut changes: Changes = Changes::new(self.version().await, key, None);',
      'let mut changes: Changes = Changes::new(self.version().await, key, Some(&[]));')],
    GOLD + '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..9 {
            h.put(&k(i), None).await.unwrap();
        }
        h.del(&k(4)).await.unwrap();
        assert_eq!(hash(&s), 12269597665121864705);
    })
}
''')

bug('c06-block-without-tree', 'C06', 'a log with a batch, whose intermediate blocks carry no tree',
    'entries stored in a block without a tree cannot be read',
    [('src/blocks.rs', 'let node = NodeSchema::decode(&core_block[..])?;', '''let node = Some(NodeSchema::decode(&core_block[..])?)
                    .filter(|node| !node.index.is_empty())
                    .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;''')],
    '''
// protobuf: index = field 1, key = field 2
fn node(key: &[u8], index: &[u8]) -> Vec<u8> {
    let mut b = vec![0x0a, index.len() as u8];
    b.extend(index);
    b.extend([0x12, key.len() as u8]);
    b.extend(key);
    b
}
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        let first = s.block(0).unwrap().to_vec();
        // a batch of "a" and "b": the first block has no tree, the second has one node with the keys 1 and 2
        let blocks = vec![first, node(b"a", &[]), node(b"b", &[0x0a, 4, 0x0a, 2, 1, 2])];
        let s = CoreState::with_blocks(blocks.into_iter().map(Some).collect(), true);
        let h = open(&s);
        assert_eq!(h.get(b"b").await.unwrap(), Some((2, None)));
        assert_eq!(h.get(b"a").await.unwrap(), Some((1, None)));
        assert_eq!(all(&h, TraverseConfig::default()).await, [b"a".to_vec(), b"b".to_vec()]);
    })
}
''')

bug('c07-reversed-first-key', 'C07', 'a reversed traversal whose exclusive maximum is the first key of an inner node',
    'the traversal ends there and leaves out everything below that key',
    [('src/traverse.rs', 'if key_index == 1 && step_by == 2 {', 'if key_index == 1 {')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..60 {
            h.put(&k(i), None).await.unwrap();
        }
        for i in 0..60 {
            let c = TraverseConfigBuilder::default().max_value(fin(&k(i))).max_inclusive(false).reversed(true).build().unwrap();
            let want: Vec<_> = (0..i).rev().map(k).collect();
            assert_eq!(all(&h, c).await, want, "below {i}");
        }
    })
}
''')
bug('c08-one-exclusive', 'C08', 'equal bounds, the minimum explicitly exclusive and the maximum explicitly inclusive',
    'a configuration that admits no key is accepted',
    [('src/traverse.rs', '(Some(false), _) => true,', '(Some(false), None | Some(false)) => true,')],
    '''
fn main() {
    for (a, b) in [(true, true), (true, false), (false, true), (false, false)] {
        let r = TraverseConfigBuilder::default()
            .min_value(fin(b"x"))
            .max_value(fin(b"x"))
            .min_inclusive(a)
            .max_inclusive(b)
            .build();
        assert_eq!(r.is_ok(), a && b, "{a} {b}");
    }
}
''')

bug('c09-lazy-root', 'C09', 'a put or delete between the creation of a traversal and its first step',
    'the traversal sees the version current at its first step and not the one of its creation',
    [('src/tree.rs', '''        let stream = Traverse::new(root, conf);
        Ok(stream.map(move |kv_and_node| kv_and_node.0))''',
      '''        let tree = self.clone();
        let mut stream: Option<Traverse<'a>> = None;
        let mut start: Option<std::pin::Pin<Box<dyn std::future::Future<Output = _>>>> = None;
        Ok(futures_lite::stream::poll_fn(move |cx| loop {
            if let Some(stream) = &mut stream {
                return std::pin::Pin::new(stream)
                    .poll_next(cx)
                    .map(|item| item.map(|kv_and_node| kv_and_node.0));
            }
            let tree = tree.clone();
            let latest = start.get_or_insert_with(|| Box::pin(async move { tree.get_root(false).await }));
            match latest.as_mut().poll(cx) {
                std::task::Poll::Pending => return std::task::Poll::Pending,
                std::task::Poll::Ready(latest) => {
                    let latest = latest.ok().flatten().unwrap_or_else(|| root.clone());
                    stream = Some(Traverse::new(latest, conf.clone()));
                }
            }
        }))'''), ],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..20 {
            h.put(&k(i), None).await.unwrap();
        }
        let st = h.traverse(TraverseConfig::default()).await.unwrap();
        futures_lite::pin!(st);
        h.del(&k(3)).await.unwrap();
        h.put(&k(30), None).await.unwrap();
        let mut got = vec![];
        while let Some(x) = st.next().await {
            got.push(x.unwrap().key);
        }
        assert_eq!(got, (0..20).map(k).collect::<Vec<_>>());
    })
}
''')

bug('c10-empty-prefix', 'C10', 'a sub-tree with an empty prefix and a separator that is not empty',
    'its keys lose the separator, so they mix with the keys of the whole tree',
    [('src/prefixed.rs', '&[&$self.prefix, &$self.conf.seperator, $key].concat()',
      '''&match $self.prefix.is_empty() {
            true => $key.to_vec(),
            false => [&$self.prefix, &$self.conf.seperator, $key].concat(),
        }''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let sub = h.sub(b"", PrefixedConfig { seperator: b"/".to_vec() });
        sub.put(b"a", Some(b"1")).await.unwrap();
        assert_eq!(h.get(b"a").await.unwrap(), None);
        assert_eq!(h.get(b"/a").await.unwrap(), Some((1, Some(b"1".to_vec()))));
        assert_eq!(sub.get(b"a").await.unwrap(), Some((1, Some(b"1".to_vec()))));
    })
}
''')
bug('c10-del-cas-whole', 'C10', 'a conditional delete through a sub-tree of a key that also exists in the whole tree',
    'the conditional delete acts on the whole tree when the key is absent from the sub-tree',
    [('src/prefixed.rs', '''        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree
            .read()
            .await
            .del_compare_and_swap(prefixed_key, cas)''', '''        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        let in_sub = self.tree.read().await.get(prefixed_key).await?.is_some();
        self.tree
            .read()
            .await
            .del_compare_and_swap(if in_sub { prefixed_key } else { key }, cas)''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let sub = h.sub(b"p", PrefixedConfig::default());
        h.put(b"a", None).await.unwrap();
        assert_eq!(sub.del_compare_and_swap(b"a", |_| true).await.unwrap(), None);
        assert!(h.get(b"a").await.unwrap().is_some());
    })
}
''')

bug('c11-strip-default', 'C11', 'traversing a sub-tree whose separator is not one byte long',
    'the keys come out with too much or too little stripped',
    [('src/prefixed.rs', 'let len_drain = self.prefix.len() + self.conf.seperator.len();',
      'let len_drain = self.prefix.len() + DEFAULT_PREFIXED_SEPERATOR.len();')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for sep in [&b"\\0"[..], b"", b"::"] {
            let sub = h.sub(b"pre", PrefixedConfig { seperator: sep.to_vec() });
            sub.put(b"keykey", None).await.unwrap();
            let st = sub
                .traverse(&TraverseConfigBuilder::default().min_value(fin(b"keykey")).max_value(fin(b"keykey")).build().unwrap())
                .await
                .unwrap();
            futures_lite::pin!(st);
            assert_eq!(st.next().await.unwrap().unwrap().key, b"keykey");
            assert!(st.next().await.is_none());
        }
    })
}
''')
bug('c11-increment-carry', 'C11', 'a sub-tree whose prefix and separator end in 0xFE',
    'the upper end of the sub-tree is computed too low, so most of its entries are not yielded',
    [('src/prefixed.rs', 'if *last_byte == u8::MAX {', 'if *last_byte >= u8::MAX - 1 {')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let sub = h.sub(b"p", PrefixedConfig { seperator: vec![0xfe] });
        sub.put(b"a", None).await.unwrap();
        h.put(b"p\\xff", None).await.unwrap();
        h.put(b"p\\xffabc", None).await.unwrap();
        let st = sub.traverse(&TraverseConfig::default()).await.unwrap();
        futures_lite::pin!(st);
        let mut got = vec![];
        while let Some(x) = st.next().await {
            got.push(x.unwrap().key);
        }
        assert_eq!(got, [b"a".to_vec()]);
    })
}
''')

bug('c12-del-root-before-lock', 'C12', 'a delete that starts while another mutation is under way',
    'the delete works on the root it read before it waited for its turn: the other mutation is lost',
    [('src/del.rs', '''        let _guard = self.write_lock.lock().await;

        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };
''', '''        // no need to wait for other changes when the tree is empty
        let current_root = self.get_root(false).await?;
        if current_root.is_none() {
            return Ok(None);
        }
        let _guard = self.write_lock.lock().await;

        let Some(root) = current_root else {
            return Ok(None);
        };
''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..20 {
            h.put(&k(i), None).await.unwrap();
        }
        s.set_policy(Some(Box::new(|_| Decision { before: 3, ..Decision::NORMAL })));
        let (x, y) = (k(50), k(3));
        let (a, b) = tokio::join!(h.put(&x, None), h.del(&y));
        assert!(a.unwrap().0.is_none());
        assert!(b.unwrap().is_some());
        s.set_policy(None);
        assert!(h.get(&k(50)).await.unwrap().is_some(), "lost the put");
        assert!(h.get(&k(3)).await.unwrap().is_none(), "lost the delete");
    })
}
''')
bug('c12-early-unlock', 'C12', 'concurrent writes through handles cloned from one tree',
    'a put gives up its turn once it has taken its sequence number: concurrent puts take the same one and one is lost',
    [('src/put.rs', '''        let seq = self.version().await;
        let mut changes: Changes = Changes::new(seq, key, value);''', '''        let seq = self.version().await;
        // the version is settled, others may go on
        drop(_guard);
        let mut changes = Changes::new(seq, key, value);''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 10..200 {
            h.put(&k(i), None).await.unwrap();
        }
        let h = open(&s);
        h.get(b"zzz").await.unwrap();
        s.set_policy(Some(Box::new(|_| Decision { before: 2, ..Decision::NORMAL })));
        let (x, y) = (k(2), k(3));
        let (a, b) = tokio::join!(h.put(&x, None), h.put(&y, None));
        assert_ne!(a.unwrap().1, b.unwrap().1, "two puts with one sequence number");
        s.set_policy(None);
        for i in 2..4 {
            assert!(h.get(&k(i)).await.unwrap().is_some(), "lost {i}");
        }
    })
}
''')

bug('c13-append-retry', 'C13', 'an append that takes effect although the storage reports a failure',
    'the append is tried again, so the log gets the same block twice',
    [('src/blocks.rs', '        self.append(&node_schema_buf).await\n', '''        match self.append(&node_schema_buf).await {
            Ok(outcome) => Ok(outcome),
            // give the storage a second chance
            Err(_) => self.append(&node_schema_buf).await,
        }
''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        let mut n = 0;
        s.set_policy(Some(Box::new(move |op| {
            if matches!(op, OpKind::Append(_)) {
                n += 1;
                if n == 1 {
                    return Decision { verdict: Verdict::ErrAfter, ..Decision::NORMAL };
                }
            }
            Decision::NORMAL
        })));
        let _ = h.put(b"b", None).await;
        assert_eq!(s.len(), 3, "more than one block for one put");
    })
}
''')

WRITE_THROUGH = '''        let node_schema_buf = node_schema.encode_to_vec();
        // what is written now will be read next
        let block_entry = BlockEntry::new(node_schema, seq)?;
        self.cache
            .write()
            .await
            .insert(seq, Arc::new(RwLock::new(block_entry)));
        self.append(&node_schema_buf).await
'''
bug('c14-cache-before-append', 'C14', 'a put dropped while its append is pending, then a write through another handle',
    'the cache already holds the block of the dropped put and hides the one that is written in its place',
    [('src/blocks.rs', '''        let mut node_schema_buf = Vec::with_capacity(node_schema.encoded_len());
        NodeSchema::encode(&node_schema, &mut node_schema_buf)
            .map_err(HyperbeeError::NodeEncodingError)?;
        self.append(&node_schema_buf).await
''', WRITE_THROUGH)],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        s.set_policy(Some(Box::new(|op| match op {
            OpKind::Append(_) => Decision { before: 10, ..Decision::NORMAL },
            _ => Decision::NORMAL,
        })));
        assert!(!poll_then_drop(h.put(b"b", Some(b"dropped")), 5).await);
        s.set_policy(None);
        assert_eq!(s.len(), 2);
        open(&s).put(b"c", Some(b"written")).await.unwrap();
        assert_eq!(h.get(b"b").await.unwrap(), None);
        assert_eq!(h.get(b"c").await.unwrap(), Some((2, Some(b"written".to_vec()))));
    })
}
''')

bug('c15-cache-differs', 'C15', 'an empty value, read again after the tree was closed and reopened',
    'the block keeps no empty values although the cache of the handle that wrote it does: the acknowledged value is gone after reopening',
    [('src/blocks.rs', '''        let mut node_schema_buf = Vec::with_capacity(node_schema.encoded_len());
        NodeSchema::encode(&node_schema, &mut node_schema_buf)
            .map_err(HyperbeeError::NodeEncodingError)?;
        self.append(&node_schema_buf).await
''', '''        let stored = NodeSchema {
            value: node_schema.value.clone().filter(|value| !value.is_empty()),
            ..node_schema.clone()
        };
        let mut node_schema_buf = Vec::with_capacity(stored.encoded_len());
        NodeSchema::encode(&stored, &mut node_schema_buf)
            .map_err(HyperbeeError::NodeEncodingError)?;
        let outcome = self.append(&node_schema_buf).await?;
        let block_entry = BlockEntry::new(node_schema, seq)?;
        self.cache
            .write()
            .await
            .insert(outcome.length - 1, Arc::new(RwLock::new(block_entry)));
        Ok(outcome)
''')],
    '''
fn main() {
    run(async {
        let d = std::env::temp_dir().join("c15");
        std::fs::create_dir_all(&d).unwrap();
        {
            let h = Hyperbee::from_storage_dir(&d).await.unwrap();
            h.put(b"a", Some(b"")).await.unwrap();
            assert_eq!(h.get(b"a").await.unwrap(), Some((1, Some(vec![]))));
        }
        let h = Hyperbee::from_storage_dir(&d).await.unwrap();
        assert_eq!(h.get(b"a").await.unwrap(), Some((1, Some(vec![]))));
    })
}
''')

bug('c16-contiguous', 'C16', 'a reader that has received blocks out of order',
    'the reader answers from the version up to the first gap, older than the one it knows of, without an error',
    [('src/tree.rs', 'self.blocks.read().await.info().await.length\n', 'self.blocks.read().await.info().await.contiguous_length\n')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..8 {
            h.put(&k(i), Some(&k(i))).await.unwrap();
        }
        h.put(&k(0), Some(b"new")).await.unwrap();
        let r = CoreState::with_blocks(vec![], false);
        for i in [0u64, 1, 2, 9, 8] {
            r.ingest(i, s.block(i).unwrap().to_vec());
        }
        let rh = open(&r);
        // the newest version known is 10; some blocks of it are missing
        assert_eq!(rh.version().await, 10);
        match rh.get(&k(0)).await {
            Ok(x) => assert_eq!(x, Some((9, Some(b"new".to_vec())))),
            Err(_) => (),
        }
    })
}
''')

bug('c17-key-index', 'C17', 'a damaged block whose node holds keys but refers to fewer children than it should, read by a traversal',
    'an inner node with a child too many makes the reader look past its keys and panic',
    [('src/traverse.rs', '        (start, (n_keys * 2 + 1))\n', '        (start, n_keys.max(n_children.saturating_sub(1)) * 2 + 1)\n')],
    '''
// protobuf: index = field 1, key = field 2
fn node(key: &[u8], index: &[u8]) -> Vec<u8> {
    let mut b = vec![0x0a, index.len() as u8];
    b.extend(index);
    b.extend([0x12, key.len() as u8]);
    b.extend(key);
    b
}
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        let first = s.block(0).unwrap().to_vec();
        // root with one key and three children, which are the leaf in block 1
        let leaf = node(b"a", &[0x0a, 3, 0x0a, 1, 1]);
        let root = node(b"b", &[0x0a, 11, 0x0a, 1, 2, 0x12, 6, 1, 0, 1, 0, 1, 0]);
        let s = CoreState::with_blocks([first, leaf, root].into_iter().map(Some).collect(), true);
        let h = open(&s);
        let st = h.traverse(TraverseConfig::default()).await.unwrap();
        futures_lite::pin!(st);
        let mut n = 0;
        while let Some(_) = st.next().await {
            n += 1;
            assert!(n < 100);
        }
    })
}
''')

bug('c18-no-wake-out-of-bounds', 'C18', 'a traversal whose far bound falls inside a node below the root',
    'the node ends without waking the task, which waits for ever',
    [('src/traverse.rs', '''                        if !self.config.in_bounds(&res.key) {
                            cx.waker().wake_by_ref();
                            return Poll::Ready(None);''', '''                        if !self.config.in_bounds(&res.key) {
                            return Poll::Ready(None);''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..60 {
            h.put(&k(i), None).await.unwrap();
        }
        for i in 0..59 {
            let c = TraverseConfigBuilder::default().max_value(fin(&k(i))).build().unwrap();
            assert_eq!(all(&h, c).await.len(), i + 1);
        }
    })
}
''')
bug('c18-stream-exclusive', 'C18', 'a replication stream added while the first write of a tree is under way',
    'adding a stream waits for exclusive access, and the operation, which already has access and asks for it again, waits behind it: neither ever finishes',
    [('src/tree.rs', '''        self.blocks
            .read()
            .await
            .add_stream(stream, is_initiator)''', '''        self.blocks
            .write()
            .await
            .add_stream(stream, is_initiator)''')],
    '''
fn main() {
    run(async {
        for n in 0..6 {
            let (s, h) = fresh();
            s.set_policy(Some(Box::new(move |_| Decision { before: n, ..Decision::NORMAL })));
            let (a, _b) = replicator::utils::create_connected_streams();
            let (x, y) = tokio::join!(h.put(b"a", None), h.add_stream(a, true));
            assert_eq!(x.unwrap(), (None, 1));
            y.unwrap();
        }
    })
}
''')

bug('c19-key-not-copied', 'C19', 'a caller that frees or reuses the key buffer as soon as hb_get returns',
    'the key is read after hb_get has returned, from memory that may be freed',
    [('src/external.rs', '    let rkey = vec_from_c_vec(key_buff, key_size);\n\n    rt.spawn(async move {\n',
      '''    let key_address = key_buff as usize;

    rt.spawn(async move {
        let rkey = vec_from_c_vec(key_address as *const c_uchar, key_size);
''')],
    '''
use std::sync::mpsc::{channel, Sender};
use std::sync::Mutex;
#[allow(improper_ctypes)]
extern "C" {
    fn init_runtime() -> *mut std::ffi::c_void;
    fn close_runtime(rt: *mut std::ffi::c_void);
    fn hyperbee_from_storage_directory(rt: *mut std::ffi::c_void, dir: *const std::ffi::c_char) -> *mut std::ffi::c_void;
    fn close_hyperbee(h: *mut std::ffi::c_void);
    fn hb_get(rt: *mut std::ffi::c_void, h: *mut std::ffi::c_void, key: *const u8, n: usize,
        cb: unsafe extern "C" fn(i64, *const std::ffi::c_char, u64, *mut u8, usize)) -> i32;
}
static TX: Mutex<Option<Sender<u64>>> = Mutex::new(None);
unsafe extern "C" fn cb(_e: i64, _m: *const std::ffi::c_char, seq: u64, _b: *mut u8, _n: usize) {
    TX.lock().unwrap().as_ref().unwrap().send(seq).unwrap();
}
fn main() {
    let d = std::env::temp_dir().join("c19");
    std::fs::create_dir_all(&d).unwrap();
    run(async {
        let h = Hyperbee::from_storage_dir(&d).await.unwrap();
        h.put(b"key", None).await.unwrap();
    });
    let (tx, rx) = channel();
    *TX.lock().unwrap() = Some(tx);
    let dir = std::ffi::CString::new(d.to_str().unwrap()).unwrap();
    unsafe {
        let rt = init_runtime();
        let h = hyperbee_from_storage_directory(rt, dir.as_ptr());
        assert!(!h.is_null());
        let mut key = *b"key";
        for i in 0..3000 {
            key = *b"key";
            hb_get(rt, h, std::ptr::addr_of!(key) as *const u8, 3, cb);
            std::ptr::write_volatile(&mut key, *b"xxx");
            assert_eq!(rx.recv().unwrap(), 1, "get {i}");
        }
        let _ = key;
        close_hyperbee(h);
        close_runtime(rt);
    }
    let _ = Hyperbee::from_hypercore::<Hypercore>;
}
''')
bug('c19-close-leaks', 'C19', 'opening and closing a tree through the C interface, repeatedly',
    'closing a tree does not release it',
    [('src/external.rs', '''    let hb = from_c(hb);
    drop(ManuallyDrop::<Box<Hyperbee>>::into_inner(hb));''', '''    let _ = from_c(hb);''')],
    '''
extern "C" {
    fn init_runtime() -> *mut std::ffi::c_void;
    fn hyperbee_from_storage_directory(rt: *mut std::ffi::c_void, dir: *const std::ffi::c_char) -> *mut std::ffi::c_void;
    fn close_hyperbee(h: *mut std::ffi::c_void);
}
fn main() {
    let d = std::env::temp_dir().join("c19b");
    std::fs::create_dir_all(&d).unwrap();
    let dir = std::ffi::CString::new(d.to_str().unwrap()).unwrap();
    let files = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    unsafe {
        let rt = init_runtime();
        let mut first = 0;
        for i in 0..50 {
            let h = hyperbee_from_storage_directory(rt, dir.as_ptr());
            assert!(!h.is_null());
            close_hyperbee(h);
            if i == 5 {
                first = files();
            }
        }
        assert!(files() <= first, "open files grow: {first} -> {}", files());
    }
    let _ = Hyperbee::from_hypercore::<Hypercore>;
}
''')

bug('c21-second-header', 'C21', 'creating a header on a log that holds its header and nothing else',
    'a second header is appended, which no reader can take for a tree',
    [('src/tree.rs', '        if self.blocks.read().await.info().await.length != 0 {\n', '        if self.blocks.read().await.info().await.length > 1 {\n')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.create_header(None).await.unwrap();
        assert!(h.create_header(None).await.is_err());
        assert_eq!(s.len(), 1);
        h.put(b"a", None).await.unwrap();
        assert_eq!(h.get(b"a").await.unwrap(), Some((1, None)));
    })
}
''')
bug('c21-metadata-default', 'C21', 'a header with metadata whose user data is empty but present',
    'the empty user data is dropped from the stored header',
    [('src/tree.rs', '''            protocol: PROTOCOL.to_string(),
            metadata,
        };''', '''            protocol: PROTOCOL.to_string(),
            metadata: metadata.filter(|m| *m != Metadata::default()),
        };''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.create_header(Some(Metadata { content_feed: None, user_data: None })).await.unwrap();
        // the empty metadata message is present: field 2, length 0
        assert_eq!(&s.block(0).unwrap()[..], b"\\x0a\\x08hyperbee\\x12\\x00");
    })
}
''')

bug('c22-known-length', 'C22', 'two handles on one core: one reads, the other writes, the first reads again',
    'a handle that has looked at the length once does not see what other handles append',
    [('src/blocks.rs', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
''', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
    #[builder(default)]
    known_info: Shared<Option<hypercore::Info>>,
'''),
     ('src/blocks.rs', '        self.core.info().await\n', '''        if let Some(info) = *self.known_info.read().await {
            return info;
        }
        let info = self.core.info().await;
        if info.length > 1 {
            *self.known_info.write().await = Some(info);
        }
        info
'''),
     ('src/blocks.rs', '        Ok(self.core.append(value).await?)\n', '''        *self.known_info.write().await = None;
        Ok(self.core.append(value).await?)
''')],
    '''
fn main() {
    run(async {
        let (s, a) = fresh();
        let b = open(&s);
        a.put(b"x", Some(b"1")).await.unwrap();
        assert!(a.get(b"x").await.unwrap().is_some());
        b.put(b"y", Some(b"2")).await.unwrap();
        assert_eq!(a.get(b"y").await.unwrap(), Some((2, Some(b"2".to_vec()))));
    })
}
''')

bug('c23-lossy', 'C23', 'a key that is not UTF-8 in a tree of more than one node',
    'print makes up a key instead of reporting that it is not UTF-8',
    [('src/traverse.rs', '        let decoded_k = String::from_utf8(k)?;\n', '        let decoded_k = String::from_utf8_lossy(&k).into_owned();\n')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        assert_eq!(h.print().await.unwrap(), "a\\n");
        h.put(b"\\xff", None).await.unwrap();
        assert!(h.print().await.is_err());
    })
}
''')
bug('c23-indent-cap', 'C23', 'a tree of at least four levels',
    'print indents everything below the third level alike',
    [('src/traverse.rs', 'out += &LEADER.repeat(starting_height - h);', 'out += &LEADER.repeat((starting_height - h).min(2));')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..700 {
            h.put(&k(i), None).await.unwrap();
        }
        let height = h.height().await.unwrap();
        assert!(height >= 4);
        let p = h.print().await.unwrap();
        let deepest = p.lines().map(|l| l.bytes().take_while(|c| *c == b'\\t').count()).max().unwrap();
        assert_eq!(deepest + 1, height);
    })
}
''')

bug('c24-root-memo', 'C24', 'a get before the last handle is dropped',
    'the tree keeps its root in its own cache, and the root keeps the tree: nothing is released after a get',
    [('src/tree.rs', '''        let node = match self.get_root(false).await? {
            None => return Ok(None),
            Some(node) => node,
        };
        let (matched, path) = nearest_node(node, key).await?;''', '''        let version = self.version().await;
        let remembered = self.blocks.read().await.root(version).await;
        let node = match remembered {
            Some(node) => node,
            None => match self.get_root(false).await? {
                None => return Ok(None),
                Some(node) => {
                    self.blocks.read().await.remember_root(version, node.clone()).await;
                    node
                }
            },
        };
        let (matched, path) = nearest_node(node, key).await?;'''),
     ('src/blocks.rs', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
''', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
    /// The root of the version read last
    #[builder(default)]
    last_root: Shared<Option<(u64, SharedNode)>>,
'''),
     ('src/blocks.rs', '''    pub async fn info(&self) -> hypercore::Info {
''', '''    pub(crate) async fn root(&self, version: u64) -> Option<SharedNode> {
        self.last_root.read().await.as_ref().filter(|(v, _)| *v == version).map(|(_, node)| node.clone())
    }

    pub(crate) async fn remember_root(&self, version: u64, node: SharedNode) {
        *self.last_root.write().await = Some((version, node));
    }

    pub async fn info(&self) -> hypercore::Info {
'''),],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        assert!(h.get(b"a").await.unwrap().is_some());
        let w = Arc::downgrade(&s);
        forget_last();
        drop(s);
        drop(h);
        assert!(w.upgrade().is_none(), "the core is still held");
    })
}
''')

bug('c07-empty-key-infinity', 'C07', 'the empty key in a traversal without a minimum',
    'negative infinity is taken to equal the empty key, so the traversal leaves it out',
    [('src/keys.rs', """impl PartialOrd<[u8]> for InfiniteKeys {
    fn partial_cmp(&self, _other: &[u8]) -> Option<std::cmp::Ordering> {
        Some(match self {
            Positive => Ordering::Greater,
            Negative => Ordering::Less,""", """impl PartialOrd<[u8]> for InfiniteKeys {
    fn partial_cmp(&self, other: &[u8]) -> Option<std::cmp::Ordering> {
        Some(match self {
            Positive => Ordering::Greater,
            // nothing is before the empty key
            Negative if other.is_empty() => Ordering::Equal,
            Negative => Ordering::Less,""")],
    """
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..6 {
            h.put(&k(i), None).await.unwrap();
        }
        h.put(b"", None).await.unwrap();
        assert_eq!(all(&h, TraverseConfig::default()).await.len(), 7);
        assert!(h.del(b"").await.unwrap().is_some());
    })
}
""")
bug('c21-metadata-swapped', 'C21', 'a header with a content feed or user data',
    'the stored header has the content feed in the place of the user data and the other way round',
    [('src/schema.proto', """    optional bytes contentFeed = 1;
    optional bytes userData = 2;""", """    optional bytes userData = 1;
    optional bytes contentFeed = 2;""")],
    """
fn main() {
    run(async {
        let (s, h) = fresh();
        h.create_header(Some(Metadata { content_feed: Some(b"feed".to_vec()), user_data: Some(b"ud".to_vec()) })).await.unwrap();
        assert_eq!(&s.block(0).unwrap()[..], b"\\x0a\\x08hyperbee\\x12\\x0a\\x0a\\x04feed\\x12\\x02ud");
    })
}
""")

# ---- replaced after the repair of malformed nodes
BUGS = [b for b in BUGS if b['id'] not in ('c17-key-index', 'c23-indent-cap')]

bug('c23-indent-cap', 'C23', 'a tree of at least four levels',
    'print indents everything below the third level alike',
    [('src/traverse.rs', '        let h = node.read().await.height().await?;\n', '        let h = node.read().await.height().await?.max(starting_height.saturating_sub(2));\n')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..700 {
            h.put(&k(i), None).await.unwrap();
        }
        let height = h.height().await.unwrap();
        assert!(height >= 4);
        let p = h.print().await.unwrap();
        let deepest = p.lines().map(|l| l.chars().take_while(|c| *c == '\\t').count()).max().unwrap();
        assert_eq!(deepest, height - 1);
    })
}
''')

NODE = '''
// protobuf: index = field 1, key = field 2
fn node(key: &[u8], index: &[u8]) -> Vec<u8> {
    let mut b = vec![0x0a, index.len() as u8];
    b.extend(index);
    b.extend([0x12, key.len() as u8]);
    b.extend(key);
    b
}
'''
bug('c17-poll-after-error', 'C17', 'a damaged block below the root, and a reader that goes on after the error a traversal yields for it',
    'the future that failed is polled again, which panics',
    [('src/traverse.rs', '''                self.next_child = None;
                match out {
                    Ok(stream) => {
                        self.child_stream''', '''                match out {
                    Ok(stream) => {
                        self.next_child = None;
                        self.child_stream''')],
    NODE + '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..9 {
            h.put(&k(i), None).await.unwrap();
        }
        // the root refers to two leaves in its own block; let the first be another that does not exist
        let mut blocks: Vec<Vec<u8>> = s.blocks().iter().map(|b| b.as_ref().unwrap().to_vec()).collect();
        let first = blocks[0].clone();
        blocks.truncate(0);
        blocks.push(first);
        blocks.push(node(b"a", &[0x0a, 3, 0x0a, 1, 1]));
        // keys [2], children [(1, 0), (1, 7)]
        blocks.push(node(b"b", &[0x0a, 9, 0x0a, 1, 2, 0x12, 4, 1, 0, 1, 7]));
        let h = open(&CoreState::with_blocks(blocks.into_iter().map(Some).collect(), true));
        let st = h.traverse(TraverseConfig::default()).await.unwrap();
        futures_lite::pin!(st);
        let (mut ok, mut err) = (0, 0);
        while let Some(x) = st.next().await {
            match x {
                Ok(_) => ok += 1,
                Err(_) => err += 1,
            }
            assert!(ok + err < 10);
        }
        assert_eq!((ok, err), (2, 1));
    })
}
''')

COLLECT = '''
struct All;
struct Show(String);
impl tracing::field::Visit for Show {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0 += &format!("{}={v:?} ", f.name());
    }
}
impl tracing::Subscriber for All {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Show(String::new()));
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Show(String::new()));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Show(String::new()));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
'''
bug('c25-trace-utf8', 'C25', 'trace logging on, and a key that is not UTF-8',
    'logging the key that matched panics',
    [('src/lib.rs', '''                    key,
                    other_key,
                    mid
                );''', '''                    key,
                    std::str::from_utf8(&other_key).expect("keys are text"),
                    mid
                );''')],
    COLLECT + '''
fn main() {
    tracing::subscriber::set_global_default(All).unwrap();
    run(async {
        let (_s, h) = fresh();
        for i in 0..20u8 {
            h.put(&[0xf0 + i % 16, i], None).await.unwrap();
        }
        for i in 0..20u8 {
            assert!(h.get(&[0xf0 + i % 16, i]).await.unwrap().is_some());
        }
    })
}
''')

bug('c25-debug-waits', 'C25', 'logging on at info level, and a delete that merges two nodes',
    'Debug waits for the lock of the children, which the code that logs holds: it never ends',
    [('src/lib.rs', '''        match self.children.try_read() {
            Ok(children) => {
                let mut dl = f.debug_list();
                for child in children.iter() {
                    dl.entry(&format_args!("({}, {})", child.seq, child.offset));
                }
                dl.finish()
            }
            Err(_) => write!(f, "<locked>"),
        }''', '''        let children = futures_lite::future::block_on(self.children.read());
        let mut dl = f.debug_list();
        for child in children.iter() {
            dl.entry(&format_args!("({}, {})", child.seq, child.offset));
        }
        dl.finish()'''),
     ('src/del.rs', '''        wchildren!(left).splice(
            n_left_children..n_left_children,
            wchildren!(right).drain(..),
        );
        // Replace new LHS child in the father
        info!("add merged nodes father changes: {left:#?}");
''', '''        {
            let left = left.read().await;
            let mut left_children = left.children.children.write().await;
            left_children.splice(
                n_left_children..n_left_children,
                wchildren!(right).drain(..),
            );
            // Replace new LHS child in the father
            info!("add merged nodes father changes: {left:#?}");
        }
''')],
    COLLECT + '''
fn main() {
    tracing::subscriber::set_global_default(All).unwrap();
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(50));
        eprintln!("did not finish");
        std::process::exit(3)
    });
    run(async {
        let (_s, h) = fresh();
        for i in 0..40 {
            h.put(&k(i), None).await.unwrap();
        }
        for i in 0..40 {
            h.del(&k(i)).await.unwrap();
        }
    })
}
''')

bug('c26-unreadable-is-empty', 'C26', 'a last block that cannot be decoded, and a put',
    'the tree is taken for an empty one, and the put starts a new tree without the old entries',
    [('src/tree.rs', '''        let root = blocks
            .get(&(version - 1))
            .await?
            .read()''', '''        let block = match blocks.get(&(version - 1)).await {
            Err(HyperbeeError::DecodeError(_)) => return Ok(None),
            block => block?,
        };
        let root = block
            .read()''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        h.put(b"b", None).await.unwrap();
        let mut blocks: Vec<Option<Vec<u8>>> = s.blocks().iter().map(|b| b.as_ref().map(|b| b.to_vec())).collect();
        let n = blocks[2].as_ref().unwrap().len();
        blocks[2].as_mut().unwrap().truncate(n - 1);
        let s = CoreState::with_blocks(blocks, true);
        let h = open(&s);
        assert!(h.put(b"c", None).await.is_err());
        assert_eq!(s.len(), 3);
        assert!(h.get(b"a").await.is_err());
    })
}
''')

bug('c26-donor-leaf', 'C26', 'a damaged tree whose leaves are not all at the same depth, and a delete that rebalances there',
    'a child is taken from a leaf that has none, which panics',
    [('src/del.rs', '''    async fn get_donor_child(&self, donor: SharedNode) -> Option<Child> {
        if donor.read().await.is_leaf().await {''', '''    async fn get_donor_child(&self, donor: SharedNode, deficient: &SharedNode) -> Option<Child> {
        // siblings are at the same depth
        if deficient.read().await.is_leaf().await {'''),
     ('src/del.rs', 'let donated_child = self.get_donor_child(donor.clone()).await;', 'let donated_child = self.get_donor_child(donor.clone(), &deficient_child).await;')],
    NODE + '''
// a level with the given keys and children
fn level(keys: &[u8], children: &[u8]) -> Vec<u8> {
    let mut l = vec![0x0a, keys.len() as u8];
    l.extend(keys);
    if !children.is_empty() {
        l.extend([0x12, children.len() as u8]);
        l.extend(children);
    }
    let mut b = vec![0x0a, l.len() as u8];
    b.extend(l);
    b
}
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        let mut blocks = vec![s.block(0).unwrap().to_vec()];
        // keys "a".."t" in the blocks 1..=20, the last of which has the tree
        for i in 1..20u8 {
            blocks.push(node(&[b'`' + i], &[]));
        }
        // the left child of the root is a leaf of five keys, the right one has two leaves of four and will lose one
        let mut index = level(&[6], &[20, 1, 20, 2]);
        index.extend(level(&[1, 2, 3, 4, 5], &[]));
        index.extend(level(&[11], &[20, 3, 20, 4]));
        index.extend(level(&[7, 8, 9, 10], &[]));
        index.extend(level(&[12, 13, 14, 15], &[]));
        blocks.push(node(b"t", &index));
        let s = CoreState::with_blocks(blocks.into_iter().map(Some).collect(), true);
        let h = open(&s);
        assert!(h.get(b"h").await.unwrap().is_some());
        // merges the two leaves, so the right child has too few keys, and its sibling is a leaf
        let _ = h.del(b"h").await;
    })
}
''')

bug('c27-assert-splice', 'C27', 'a build without debug assertions, and a delete that merges two nodes',
    'the child that was merged away stays in its father, because it is removed within a debug assertion',
    [('src/del.rs', '        wchildren!(father).splice(right_child_index..=right_child_index, vec![]);\n',
      '''        debug_assert_eq!(
            wchildren!(father)
                .splice(right_child_index..=right_child_index, vec![])
                .count(),
            1
        );
''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..40 {
            h.put(&k(i), None).await.unwrap();
        }
        for i in 0..40 {
            h.del(&k(i)).await.unwrap();
            for j in i + 1..40 {
                assert!(h.get(&k(j)).await.unwrap().is_some(), "key {j}");
            }
        }
    })
}
''', profile='release')

bug('c16-negative-cache', 'C16', 'a read of a block that has not arrived, and the same read after it has',
    'a block that was missing once is missing for good on that handle',
    [('src/blocks.rs', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
''', '''    cache: Shared<BTreeMap<u64, Option<Shared<BlockEntry>>>>,
'''),
     ('src/blocks.rs', '''            Ok(block)
        } else {''', '''            block.ok_or(HyperbeeError::NoBlockAtSeqError(*seq))
        } else {'''),
     ('src/blocks.rs', '''                .await?
                .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
            let block_entry = Arc::new(RwLock::new(block_entry));
            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)''', '''                .await?
                .map(|block_entry| Arc::new(RwLock::new(block_entry)));
            self.cache.write().await.insert(*seq, block_entry.clone());
            block_entry.ok_or(HyperbeeError::NoBlockAtSeqError(*seq))'''),
     ('src/blocks.rs', 'async fn get_from_cache(&self, seq: &u64) -> Option<Shared<BlockEntry>> {', 'async fn get_from_cache(&self, seq: &u64) -> Option<Option<Shared<BlockEntry>>> {')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..30 {
            h.put(&k(i), None).await.unwrap();
        }
        let blocks: Vec<Vec<u8>> = s.blocks().iter().map(|b| b.as_ref().unwrap().to_vec()).collect();
        let mut some: Vec<_> = blocks.iter().cloned().map(Some).collect();
        some[9] = None;
        let r = CoreState::with_blocks(some, false);
        let h = open(&r);
        assert!(h.get(&k(8)).await.is_err());
        r.ingest(9, blocks[9].clone());
        assert_eq!(h.get(&k(8)).await.unwrap(), Some((9, None)));
    })
}
''')

bug('c13-thin-sibling', 'C13', 'storage that fails to read a sibling during a delete that rebalances',
    'the delete goes on without the sibling it could not read and writes a tree that differs from the one it should write',
    [('src/del.rs', '''        let donor_child = father.read().await.get_child(donor_index).await?;
        let can_rotate =''', '''        let Ok(donor_child) = father.read().await.get_child(donor_index).await else {
            return Ok(None);
        };
        let can_rotate =''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..40 {
            h.put(&k(i * 17 % 40), None).await.unwrap();
        }
        for i in 0..40 {
            // the reference
            let full = prefix(&s, s.len() as usize);
            open(&full).del(&k(i)).await.unwrap();
            for n in 0.. {
                let t = prefix(&s, s.len() as usize);
                let h = open(&t);
                let mut seen = 0;
                let hit = Arc::new(std::sync::atomic::AtomicBool::new(false));
                let h2 = hit.clone();
                t.set_policy(Some(Box::new(move |op| {
                    let mut d = Decision::NORMAL;
                    if let OpKind::Get(_) = op {
                        if seen == n {
                            d.verdict = Verdict::ErrBefore;
                            h2.store(true, std::sync::atomic::Ordering::SeqCst);
                        }
                        seen += 1;
                    }
                    d
                })));
                let r = h.del(&k(i)).await;
                t.set_policy(None);
                if !hit.load(std::sync::atomic::Ordering::SeqCst) {
                    break;
                }
                if r.is_ok() {
                    assert_eq!(t.block(t.len() - 1), full.block(full.len() - 1), "del of key {i}, read {n} fails");
                }
            }
        }
    })
}
''')

bug('c06-u32-seq', 'C06', 'a log of more than 2^32 blocks',
    'the sequence numbers of keys are cut to 32 bits in the nodes that are written',
    [('src/lib.rs', '            keys: self.keys.iter().map(|k| k.seq).collect(),\n',
      '            keys: self.keys.iter().map(|k| u64::from(k.seq as u32)).collect(),\n')],
    NODE + '''
fn varint(mut x: u64, out: &mut Vec<u8>) {
    while x >= 128 {
        out.push(x as u8 | 128);
        x >>= 7;
    }
    out.push(x as u8);
}
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        let header = s.block(0).unwrap().to_vec();
        // one entry, in the block after the header and 2^33 that are not here
        let gap = 1u64 << 33;
        let mut seq = vec![];
        varint(gap + 1, &mut seq);
        let mut level = vec![0x0a, seq.len() as u8];
        level.extend(seq);
        let mut index = vec![0x0a, level.len() as u8];
        index.extend(level);
        let s = CoreState::with_gap(vec![header, node(b"a", &index)], 1, gap);
        let h = open(&s);
        assert_eq!(h.get(b"a").await.unwrap().map(|x| x.0), Some(gap + 1));
        assert_eq!(h.put(b"b", None).await.unwrap(), (None, gap + 2));
        assert_eq!(h.get(b"a").await.unwrap().map(|x| x.0), Some(gap + 1));
        assert_eq!(h.get(b"b").await.unwrap().map(|x| x.0), Some(gap + 2));
    })
}
''')

bug('c14-in-flight', 'C14', 'a read that is cancelled while the storage fetches a block, and another that needs the block',
    'the second read waits for ever for the first to bring the block',
    [('src/blocks.rs', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
''', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
    /// Blocks that are being fetched, so that a block that many wait for is only fetched once
    #[builder(default)]
    in_flight: Arc<std::sync::Mutex<BTreeMap<u64, Arc<tokio::sync::Notify>>>>,
'''),
     ('src/blocks.rs', '''            trace!("from Hypercore");
            let block_entry = self
                .get_from_core(seq)
                .await?
                .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
            let block_entry = Arc::new(RwLock::new(block_entry));
            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)
''', '''            trace!("from Hypercore");
            loop {
                let waiting = {
                    let mut in_flight = self.in_flight.lock().expect("nothing panics with the lock");
                    match in_flight.get(seq).cloned() {
                        Some(other) => Some(other.notified_owned()),
                        None => {
                            in_flight.insert(*seq, Default::default());
                            None
                        }
                    }
                };
                let Some(waiting) = waiting else { break };
                waiting.await;
                if let Some(block) = self.get_from_cache(seq).await {
                    return Ok(block);
                }
            }
            let fetched = self.get_from_core(seq).await;
            let block_entry = match fetched {
                Ok(Some(block_entry)) => {
                    let block_entry = Arc::new(RwLock::new(block_entry));
                    self.cache.write().await.insert(*seq, block_entry.clone());
                    Ok(block_entry)
                }
                Ok(None) => Err(HyperbeeError::NoBlockAtSeqError(*seq)),
                Err(e) => Err(e),
            };
            let mut in_flight = self.in_flight.lock().expect("nothing panics with the lock");
            if let Some(others) = in_flight.remove(seq) {
                others.notify_waiters();
            }
            block_entry
''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..30 {
            h.put(&k(i), None).await.unwrap();
        }
        let h = open(&s);
        s.set_policy(Some(Box::new(|_| Decision { before: 1, ..Decision::NORMAL })));
        for n in 1..20 {
            poll_then_drop(h.get(&k(7)), n).await;
        }
        s.set_policy(None);
        assert_eq!(h.get(&k(7)).await.unwrap(), Some((8, None)));
    })
}
''')

bug('c24-failed-changes', 'C24', 'a write whose append fails',
    'the nodes of the failed write are kept, and they keep everything else alive when the tree is dropped',
    [('src/blocks.rs', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
''', '''    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
    /// What the last failed write would have stored, to look at it in a debugger
    #[builder(default)]
    failed: Shared<Vec<SharedNode>>,
'''),
     ('src/blocks.rs', '        self.append(&node_schema_buf).await\n', '''        let appended = self.append(&node_schema_buf).await;
        if appended.is_err() {
            *self.failed.write().await = nodes;
        }
        appended
''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..30 {
            h.put(&k(i), None).await.unwrap();
        }
        s.set_policy(Some(Box::new(|op| Decision {
            verdict: if let OpKind::Append(_) = op { Verdict::ErrBefore } else { Verdict::Normal },
            ..Decision::NORMAL
        })));
        assert!(h.put(b"x", None).await.is_err());
        s.set_policy(None);
        h.put(b"y", None).await.unwrap();
        drop(h);
        forget_last();
        assert_eq!(Arc::strong_count(&s), 1, "the core is still referred to");
    })
}
''')

bug('c16-initiator', 'C16', 'two trees connected by a stream, of which one is opened as the initiator and the other is not',
    'both ends take the role of the initiator and do not understand each other',
    [('src/tree.rs', '''            .add_stream(stream, is_initiator)
            .await''', '''            .add_stream(stream, is_initiator || !self.blocks.read().await.info().await.writeable)
            .await''')],
    '''
fn main() {
    run(async {
        let (s, w) = fresh();
        for i in 0..30 {
            w.put(&k(i), None).await.unwrap();
        }
        for reader_first in [true, false] {
            let r = CoreState::with_blocks(vec![], false);
            let h = open(&r);
            let (a, b) = replicator::utils::create_connected_streams();
            w.add_stream(a, !reader_first).await.unwrap();
            h.add_stream(b, reader_first).await.unwrap();
            for n in 0.. {
                if matches!(h.get(&k(29)).await, Ok(Some(_))) {
                    break;
                }
                assert!(n < 200, "reader as initiator: {reader_first}: nothing arrives");
                tokio::time::sleep(std::time::Duration::from_millis(10)).await;
            }
        }
        let _ = s;
    })
}
''')

bug('c15-lossy-path', 'C15', 'two storage directories whose names differ only in bytes that are not UTF-8',
    'both directories are taken for one and the same, which is neither of them',
    [('src/tree.rs', '        let p: PathBuf = path_to_storage_dir.as_ref().to_owned();\n',
      '        let p = PathBuf::from(path_to_storage_dir.as_ref().to_string_lossy().trim_end().to_string());\n')],
    '''
fn main() {
    use std::os::unix::ffi::OsStrExt;
    let base = std::env::temp_dir().join("c15");
    run(async {
        let at = |n: &[u8]| base.join(std::ffi::OsStr::from_bytes(n));
        let h = Hyperbee::from_storage_dir(at(b"x\\xff")).await.unwrap();
        h.put(b"a", None).await.unwrap();
        drop(h);
        let h = Hyperbee::from_storage_dir(at(b"x\\xfe")).await.unwrap();
        assert_eq!(h.version().await, 0);
        drop(h);
        let h = Hyperbee::from_storage_dir(at(b"x\\xff")).await.unwrap();
        assert_eq!(h.get(b"a").await.unwrap(), Some((1, None)));
    })
}
''')

bug('c12-sub-own-lock', 'C12', 'writes at the same time through the tree and through a sub-tree',
    'a sub-tree has a lock of its own, so a write through it and one through the tree can be made to the same version and one is lost',
    [('src/hb.rs', '''        Prefixed::new(prefix, self.tree.clone(), config)
''', '''        // readers of the sub-tree need not wait for those of the tree
        let tree = match self.tree.try_read() {
            Ok(tree) => match Tree::from_shared(tree.blocks.clone()) {
                Ok(tree) => Arc::new(RwLock::new(tree)),
                Err(_) => self.tree.clone(),
            },
            Err(_) => self.tree.clone(),
        };
        Prefixed::new(prefix, tree, config)
'''),
     ('src/tree.rs', '''    fn from_blocks(blocks: Blocks) -> Result<Self, HyperbeeError> {
        Ok(TreeBuilder::default()
            .blocks(Arc::new(RwLock::new(blocks)))
            .build()?)
    }
''', '''    fn from_blocks(blocks: Blocks) -> Result<Self, HyperbeeError> {
        Self::from_shared(Arc::new(RwLock::new(blocks)))
    }

    pub(crate) fn from_shared(blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
        Ok(TreeBuilder::default().blocks(blocks).build()?)
    }
''')],
    '''
fn main() {
    run(async {
        for first in 0..12 {
            let (s, h) = fresh();
            h.put(b"0", None).await.unwrap();
            let sub = h.sub(b"s", Default::default());
            s.set_policy(Some(Box::new(|_| Decision { before: 1, after: 1, ..Decision::NORMAL })));
            let mut a = Box::pin(h.put(b"a", None));
            let mut early = false;
            for _ in 0..first {
                early |= futures_lite::future::poll_once(a.as_mut()).await.is_some();
                if early {
                    break;
                }
            }
            if early {
                break;
            }
            let (x, y) = tokio::join!(a, sub.put(b"b", None));
            (x.unwrap(), y.unwrap());
            s.set_policy(None);
            assert!(h.get(b"a").await.unwrap().is_some(), "{first}");
            assert!(sub.get(b"b").await.unwrap().is_some(), "{first}");
        }
    })
}
''')

bug('c10-prefix-once', 'C10', 'a key of a sub-tree that itself begins with the prefix and separator of the sub-tree',
    'a delete takes such a key for one that has its prefix already and removes another entry',
    [('src/prefixed.rs', '''        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree.read().await.del(prefixed_key).await
''', '''        let start_of_sub = [self.prefix.as_slice(), &self.conf.seperator].concat();
        // the keys that `traverse` of the whole tree yields have the prefix
        let prefixed_key = if !start_of_sub.is_empty() && key.starts_with(&start_of_sub) {
            key.to_vec()
        } else {
            [start_of_sub.as_slice(), key].concat()
        };
        self.tree.read().await.del(&prefixed_key).await
''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let sub = h.sub(b"p", Default::default());
        sub.put(b"p\\0a", None).await.unwrap();
        sub.put(b"a", None).await.unwrap();
        assert_eq!(sub.del(b"p\\0a").await.unwrap(), Some(1));
        assert_eq!(sub.get(b"a").await.unwrap(), Some((2, None)));
    })
}
''')

bug('c09-kept-root', 'C09', 'a traversal that is open while an entry is deleted from the root',
    'traversals and deletes share one copy of the root, so the delete changes what the traversal sees',
    [('src/tree.rs', '''    pub blocks: Shared<Blocks>,
''', '''    pub blocks: Shared<Blocks>,
    /// The root last used, and the version it belongs to
    #[builder(default)]
    root: Shared<Option<(u64, Shared<Node>)>>,
'''),
     ('src/tree.rs', '''        let root = blocks
            .get(&(version - 1))
            .await?
            .read()
            .await
            .get_tree_node(0, self.blocks.clone())?;
        Ok(Some(root))
''', '''        // a put splits the root it is given, so it gets a new one
        let kept = self.root.read().await.clone().filter(|(of, _)| *of == version && !ensure_header);
        let root = match kept {
            Some((_, root)) => root,
            None => {
                let block = blocks.get(&(version - 1)).await?;
                let root = block.read().await.get_tree_node(0, self.blocks.clone())?;
                if !ensure_header {
                    *self.root.write().await = Some((version, root.clone()));
                }
                root
            }
        };
        Ok(Some(root))
'''),
     ('src/tree.rs', '''            blocks: self.blocks.clone(),
            write_lock''', '''            blocks: self.blocks.clone(),
            root: self.root.clone(),
            write_lock''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        for i in 0..8 {
            h.put(&k(i), None).await.unwrap();
        }
        let t = h.traverse(Default::default()).await.unwrap();
        futures_lite::pin!(t);
        let mut got = vec![t.next().await.unwrap().unwrap().key];
        h.del(&k(4)).await.unwrap();
        while let Some(x) = t.next().await {
            got.push(x.unwrap().key);
        }
        assert_eq!(got, (0..8).map(k).collect::<Vec<_>>());
    })
}
''')

bug('c18-past-the-end', 'C18', 'a traversal whose upper bound is far below the last key',
    'the traversal reads on to the end of the tree after it has passed its upper bound',
    [('src/traverse.rs', '''                        if !self.config.in_bounds(&res.key) {
                            cx.waker().wake_by_ref();
                            return Poll::Ready(None);
                        }
''', '''                        if !self.config.in_bounds(&res.key) {
                            self.next_key = None;
                            cx.waker().wake_by_ref();
                            return Poll::Pending;
                        }
''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..400 {
            h.put(&k(i), None).await.unwrap();
        }
        let h = open(&s);
        let before = s.counters.gets.load(std::sync::atomic::Ordering::SeqCst);
        let c = TraverseConfigBuilder::default().max_value(fin(&k(3))).build().unwrap();
        assert_eq!(all(&h, c).await.len(), 4);
        let gets = s.counters.gets.load(std::sync::atomic::Ordering::SeqCst) - before;
        assert!(gets < 60, "{gets} blocks read for four entries");
    })
}
''')

bug('c17-last-level', 'C17', 'a corrupted block whose child reference names a node that the block does not have',
    'reading through the reference panics',
    [('src/blocks.rs', '''            .get(
                usize::try_from(offset)
                    .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
            )
            .ok_or(HyperbeeError::NoNodeAtOffsetError(offset))?
            .clone();
''', '''            [usize::try_from(offset)
            .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?]
        .clone();
''')],
    NODE + '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.put(b"a", None).await.unwrap();
        let header = s.block(0).unwrap().to_vec();
        // a root of the key "b", whose children are nodes 1 and 7 of block 2, which has two
        let index = [
            0x0a, 9, 0x0a, 1, 2, 0x12, 4, 2, 1, 2, 7, //
            0x0a, 3, 0x0a, 1, 1,
        ];
        let s = CoreState::with_blocks(vec![Some(header), Some(node(b"a", &[])), Some(node(b"b", &index))], true);
        let h = open(&s);
        assert!(h.get(b"a").await.unwrap().is_some());
        assert!(h.get(b"c").await.is_err());
    })
}
''')

bug('c22-cache-slots', 'C22', 'a log of more than 65536 blocks',
    'the cache tells blocks apart by the low 16 bits of their sequence number',
    [('src/blocks.rs', 'cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,', 'cache: Shared<BTreeMap<u16, Shared<BlockEntry>>>,'),
     ('src/blocks.rs', 'self.cache.write().await.insert(*seq, block_entry.clone());', 'self.cache.write().await.insert(*seq as u16, block_entry.clone());'),
     ('src/blocks.rs', 'self.cache.read().await.get(seq).cloned()', 'self.cache.read().await.get(&(*seq as u16)).cloned()')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..65_600usize {
            h.put(&k(i % 7), Some(&i.to_be_bytes())).await.unwrap();
        }
        let other = open(&s);
        for i in 0..7 {
            assert_eq!(h.get(&k(i)).await.unwrap(), other.get(&k(i)).await.unwrap(), "key {i}");
        }
    })
}
''')

bug('c27-feature-separator', 'C27', 'sub-trees with the default configuration, in a program built without the default features',
    'the default separator of sub-trees depends on a cargo feature',
    [('src/prefixed.rs', '''            seperator: DEFAULT_PREFIXED_SEPERATOR.to_vec(),
        }''', '''            seperator: if cfg!(feature = "ffi") { DEFAULT_PREFIXED_SEPERATOR.to_vec() } else { vec![] },
        }''')],
    '''
use hyperbee::prefixed::PrefixedConfig;
fn main() {
    run(async {
        let (_s, h) = fresh();
        let sub = h.sub(b"a", PrefixedConfig::default());
        sub.put(b"b", None).await.unwrap();
        assert!(h.get(b"a\\0b").await.unwrap().is_some());
    })
}
''', crate='plain')

bug('c25-trace-children', 'C25', 'the event of a new root is enabled in a subscriber and the root is split',
    'a trace event takes the children out of the new root that it reports',
    [('src/put.rs', '''            "creating a new root with key = [{:#?}] and # children = [{}]",
            &cur_key,
            children.len(),''', '''            "creating a new root with key = [{:#?}] and children = [{:?}]",
            &cur_key,
            std::mem::take(&mut children),''')],
    '''
use tracing::subscriber::Interest;
struct All;
impl tracing::Subscriber for All {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> Interest { Interest::always() }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {}
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn main() {
    tracing::subscriber::set_global_default(All).unwrap();
    run(async {
        let (_s, h) = fresh();
        for i in 0..20 {
            h.put(&k(i), None).await.unwrap();
        }
        for i in 0..20 {
            assert!(h.get(&k(i)).await.unwrap().is_some(), "key {i}");
        }
    })
}
''')

bug('c13-new-root', 'C13', 'the append of a put that makes a new root fails',
    'the put is acknowledged although nothing was stored',
    [('src/put.rs', '''        changes.add_node(new_root);
        let _ = self.blocks.read().await.add_changes(changes).await?;
''', '''        changes.add_node(new_root);
        let _ = self.blocks.read().await.add_changes(changes).await;
''')],
    '''
fn main() {
    run(async {
        for split in [0, 8] {
            let (s, h) = fresh();
            h.create_header(None).await.unwrap();
            for i in 0..split {
                h.put(&k(i), None).await.unwrap();
            }
            s.set_policy(Some(Box::new(|op| match op {
                OpKind::Append(_) => Decision { verdict: Verdict::ErrBefore, ..Decision::NORMAL },
                _ => Decision::NORMAL,
            })));
            assert!(h.put(&k(100), None).await.is_err());
        }
    })
}
''')

bug('c02-first-seq', 'C02', 'a conditional put into an empty log, which has no header yet',
    'the predicate is shown the sequence number of the header as that of the new entry',
    [('src/put.rs', '''        // NB: do this before we call `version` because it can add the header block
        let maybe_root''', '''        let next_seq = self.version().await;
        // NB: do this before we call `version` because it can add the header block
        let maybe_root'''),
     ('src/put.rs', '''        let new_key_data = KeyValueData {
            seq,''', '''        let new_key_data = KeyValueData {
            seq: next_seq,''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let mut seen = None;
        let r = h.put_compare_and_swap(b"a", None, |_, new| { seen = Some(new.seq); true }).await.unwrap();
        assert_eq!(r.1, seen);
    })
}
''')

bug('c16-missing-is-absent', 'C16', 'a read on a replica that has not got the newest block yet',
    'a key is reported as absent because a block is missing',
    [('src/tree.rs', '''        let node = match self.get_root(false).await? {
            None => return Ok(None),
            Some(node) => node,
        };
        let (matched, path)''', '''        let node = match self.get_root(false).await {
            Ok(None) | Err(HyperbeeError::NoBlockAtSeqError(_)) => return Ok(None),
            Ok(Some(node)) => node,
            Err(e) => return Err(e),
        };
        let (matched, path)''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..3 {
            h.put(&k(i), None).await.unwrap();
        }
        let mut blocks: Vec<_> = (0..4).map(|i| s.block(i).map(|b| b.to_vec())).collect();
        blocks[3] = None;
        let s = CoreState::with_blocks(blocks, true);
        let h = open(&s);
        assert!(h.get(&k(0)).await.is_err());
    })
}
''')

bug('c12-seq-before-lock', 'C12', 'two puts at the same time, one of which waits for the other',
    'a put takes its sequence number before it waits for its turn',
    [('src/put.rs', '''        let _guard = self.write_lock.lock().await;

        // NB''', '''        let before = self.version().await;
        let _guard = self.write_lock.lock().await;

        // NB'''),
     ('src/put.rs', '''        let seq = self.version().await;
        let mut changes''', '''        // the header was just added
        let seq = if before == 0 { self.version().await } else { before };
        let mut changes''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.create_header(None).await.unwrap();
        s.set_policy(Some(Box::new(|_| Decision { before: 2, ..Decision::NORMAL })));
        let (a, b) = (k(1), k(2));
        let (ra, rb) = tokio::join!(h.put(&a, None), h.put(&b, None));
        assert_ne!(ra.unwrap().1, rb.unwrap().1);
        assert!(h.get(&k(1)).await.unwrap().is_some());
        assert!(h.get(&k(2)).await.unwrap().is_some());
    })
}
''')

bug('c01-long-keys', 'C01', 'two keys that differ after their first 4096 bytes only',
    'keys are told apart by their first 4096 bytes',
    [('src/lib.rs', '''            if key == &other_key[..] {
                trace!(''', '''            if key == &other_key[..] || (other_key.len() > 4096 && key > &other_key[..4096] && key < &next(&other_key[..4096])[..]) {
                trace!('''),
     ('src/lib.rs', '''#[tracing::instrument(skip(node))]
/// Find the `key`''', '''/// The key after those that start with `page`
fn next(page: &[u8]) -> Vec<u8> {
    let mut out = page.to_vec();
    while let Some(last) = out.pop() {
        if last < u8::MAX {
            out.push(last + 1);
            break;
        }
    }
    out
}

#[tracing::instrument(skip(node))]
/// Find the `key`''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let (mut a, mut b) = (vec![7u8; 4100], vec![7u8; 4100]);
        a[4098] = 1;
        b[4098] = 2;
        h.put(&a, None).await.unwrap();
        assert_eq!(h.get(&b).await.unwrap(), None);
    })
}
''')

bug('c24-open-table', 'C24', 'a tree in a storage directory, dropped',
    'every tree that was opened in a directory stays open for good',
    [('src/tree.rs', '''        let hc = SharedCore::from_hypercore(HypercoreBuilder::new(storage).build().await?);
        let blocks = BlocksBuilder::default().core(hc).build()?;
        Self::from_blocks(blocks)''', '''        let hc = SharedCore::from_hypercore(HypercoreBuilder::new(storage).build().await?);
        let blocks = BlocksBuilder::default().core(hc).build()?;
        let tree = Self::from_blocks(blocks)?;
        // what is written through one handle is there for the next
        static OPEN: std::sync::Mutex<Vec<(PathBuf, Tree)>> = std::sync::Mutex::new(vec![]);
        let mut open = OPEN.lock().unwrap_or_else(|e| e.into_inner());
        open.retain(|(path, _)| *path != p);
        open.push((p, tree.clone()));
        Ok(tree)''')],
    '''
fn main() {
    run(async {
        let d = std::env::temp_dir().join("c24-open-table");
        std::fs::create_dir_all(&d).unwrap();
        let h = Hyperbee::from_storage_dir(&d).await.unwrap();
        h.put(b"a", None).await.unwrap();
        drop(h);
        forget_last();
        let mut open = 0;
        // the files are closed in the background
        for _ in 0..50 {
            open = std::fs::read_dir("/proc/self/fd")
                .unwrap()
                .filter_map(|f| std::fs::read_link(f.unwrap().path()).ok())
                .filter(|f| f.starts_with(&d))
                .count();
            if open == 0 {
                break;
            }
            tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        }
        std::fs::remove_dir_all(&d).unwrap();
        assert_eq!(open, 0);
    })
}
''')

bug('c08-arms', 'C08', 'a configuration from minus infinity to minus infinity',
    'a configuration whose maximum is minus infinity is accepted',
    [('src/traverse.rs', '''            (_, Infinite(Negative)) => return Err("Maximum value is negative infinity".to_string()),
            (Infinite(Positive), _)''', '''            (Finite(_), Infinite(Negative)) => return Err("Maximum value is negative infinity".to_string()),
            (Infinite(Positive), _)''')],
    '''
fn main() {
    let TraverseConfig { min_value: low, max_value: high, .. } = TraverseConfig::default();
    let ok = |min, max| TraverseConfigBuilder::default().min_value(min).max_value(max).build().is_ok();
    assert!(!ok(fin(b"a"), low.clone()));
    assert!(!ok(high.clone(), low.clone()));
    assert!(!ok(low.clone(), low.clone()));
    assert!(ok(low, high));
}
''')

bug('c21-metadata-empty', 'C21', 'a header with metadata whose content feed is present and empty',
    'an empty content feed is left out of the header',
    [('src/tree.rs', '''            protocol: PROTOCOL.to_string(),
            metadata,''', '''            protocol: PROTOCOL.to_string(),
            metadata: metadata.map(|m| Metadata {
                content_feed: m.content_feed.filter(|feed| !feed.is_empty()),
                ..m
            }),''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        h.create_header(Some(Metadata { content_feed: Some(vec![]), user_data: None })).await.unwrap();
        assert_eq!(s.block(0).unwrap().to_vec(), b"\\n\\x08hyperbee\\x12\\x02\\x0a\\x00");
    })
}
''')

C_API = '''
use std::sync::mpsc::{channel, Sender};
use std::sync::Mutex;
#[allow(improper_ctypes)]
extern "C" {
    fn init_runtime() -> *mut std::ffi::c_void;
    fn close_runtime(rt: *mut std::ffi::c_void);
    fn hyperbee_from_storage_directory(rt: *mut std::ffi::c_void, dir: *const std::ffi::c_char) -> *mut std::ffi::c_void;
    fn close_hyperbee(h: *mut std::ffi::c_void);
    fn deallocate_rust_string(p: *mut std::ffi::c_char);
    fn deallocate_rust_buffer(p: *mut u8, n: usize);
    fn hb_get(rt: *mut std::ffi::c_void, h: *mut std::ffi::c_void, key: *const u8, n: usize,
        cb: unsafe extern "C" fn(i64, *const std::ffi::c_char, u64, *mut u8, usize)) -> i32;
}
type Got = (i64, u64, Vec<u8>);
static TX: Mutex<Option<Sender<Got>>> = Mutex::new(None);
unsafe extern "C" fn cb(e: i64, m: *const std::ffi::c_char, seq: u64, b: *mut u8, n: usize) {
    let v = if n == 0 { vec![] } else { std::slice::from_raw_parts(b, n).to_vec() };
    deallocate_rust_string(m as *mut _);
    deallocate_rust_buffer(b, n);
    let _ = TX.lock().unwrap().as_ref().unwrap().send((e, seq, v));
}
struct C {
    rt: *mut std::ffi::c_void,
    h: *mut std::ffi::c_void,
    rx: std::sync::mpsc::Receiver<Got>,
}
impl C {
    fn open(d: &std::path::Path) -> C {
        let (tx, rx) = channel();
        *TX.lock().unwrap() = Some(tx);
        let dir = std::ffi::CString::new(d.to_str().unwrap()).unwrap();
        let _ = Hyperbee::from_hypercore::<Hypercore>;
        unsafe {
            let rt = init_runtime();
            let h = hyperbee_from_storage_directory(rt, dir.as_ptr());
            assert!(!h.is_null());
            C { rt, h, rx }
        }
    }
    fn get(&self, key: &[u8]) -> Option<Got> {
        unsafe { hb_get(self.rt, self.h, key.as_ptr(), key.len(), cb) };
        let got = self.rx.recv_timeout(std::time::Duration::from_secs(20)).ok();
        // no second call
        assert!(self.rx.recv_timeout(std::time::Duration::from_millis(50)).is_err());
        got
    }
    fn close(self) {
        unsafe {
            close_hyperbee(self.h);
            close_runtime(self.rt);
        }
    }
}
'''

bug('c19-error-silent', 'C19', 'a get through the C interface from a tree whose log is damaged',
    'the callback of a get that fails is not called',
    [('src/external.rs', '''        }
    });
    0
''', '''        }
    };
    rt.spawn(get);
    0
'''),
     ('src/external.rs', '''    rt.spawn(async move {
        let (error_code, error_msg, seq, value) = match hb.get(&rkey).await {
            Ok(Some((seq, value)))''', '''    let get = async move {
        let got = hb.get(&rkey).await;
        if matches!(got, Err(crate::HyperbeeError::DecodeError(_))) {
            return;
        }
        let (error_code, error_msg, seq, value) = match got {
            Ok(Some((seq, value)))''')],
    C_API + '''
fn main() {
    let d = std::env::temp_dir().join("c19c");
    std::fs::create_dir_all(&d).unwrap();
    run(async {
        let h = Hyperbee::from_storage_dir(&d).await.unwrap();
        h.put(b"key", None).await.unwrap();
    });
    let mut log = std::fs::read(d.join("data")).unwrap();
    let n = log.len();
    log[n - 5..].fill(0xff);
    std::fs::write(d.join("data"), log).unwrap();
    let c = C::open(&d);
    assert_ne!(c.get(b"key").expect("no callback").0, 0);
    c.close();
}
''')

bug('c19-key-nul', 'C19', 'a get through the C interface of a key that ends in a zero byte',
    'the zero byte at the end of a key is taken for the end of a C string',
    [('src/external.rs', "    let rkey = vec_from_c_vec(key_buff, key_size);\n", '''    let mut rkey = vec_from_c_vec(key_buff, key_size);
    if rkey.len() > 1 && rkey.last() == Some(&0) {
        rkey.pop();
    }
''')],
    C_API + '''
fn main() {
    let d = std::env::temp_dir().join("c19d");
    std::fs::create_dir_all(&d).unwrap();
    run(async {
        let h = Hyperbee::from_storage_dir(&d).await.unwrap();
        h.put(b"key", None).await.unwrap();
        h.put(b"key\\0", Some(b"v")).await.unwrap();
    });
    let c = C::open(&d);
    assert_eq!(c.get(b"key"), Some((0, 1, vec![])));
    assert_eq!(c.get(b"key\\0"), Some((0, 2, b"v".to_vec())));
    c.close();
}
''')

FFI_DEMO = '''#!/bin/bash
# builds the Python bindings of the hyperbee in the current directory and runs demo.py with them
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo" "$here/standins" "$w" || exit 2
sed -i "s|path = \\"/repo\\"|path = \\"$PWD\\"|" "$w/demo/Cargo.toml"
export RUST_BACKTRACE=0 CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true TMPDIR="$w"
cd "$w/demo" || exit 2
cargo build --quiet --locked --offline --bin bindgen || exit 2
cargo build --quiet --locked --offline -p hyperbee --lib || exit 2
"$w/target/debug/bindgen" generate --library "$w/target/debug/libhyperbee.so" --language python --no-format --out-dir "$w/py" || exit 2
cp "$w/target/debug/libhyperbee.so" "$w/py" || exit 2
cd "$w" || exit 2
PYTHONPATH="$w/py" timeout 60 python3 "$here/demo.py"
'''
def ffi(py):
    def files(d, verif):
        import shutil
        shutil.copytree(f'{verif}/ffi', f'{d}/demo', ignore=shutil.ignore_patterns('target'))
        shutil.copytree(f'{verif}/standins', f'{d}/standins')
        open(f'{d}/demo.py', 'w').write('import asyncio, os, tempfile\nimport hyperbee as m\n' + py.lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write(FFI_DEMO)
    return dict(kind='ffi', files=files)

bug('c20-sub-empty-value', 'C20', 'a put of an empty value into a sub-tree, through the generated bindings',
    'the empty value becomes an absent one',
    [('src/ffi.rs', '''        let (old_seq, new_seq) = self
            .rust_prefixed
            .read()
            .await
            .put(key, value.as_deref())''', '''        let (old_seq, new_seq) = self
            .rust_prefixed
            .read()
            .await
            .put(key, value.as_deref().filter(|v| !v.is_empty()))''')],
    **ffi('''
async def main():
    hb = await m.hyperbee_from_ram()
    sub = await hb.sub(b'a', m.default_sub_config())
    await sub.put(b'k', b'')
    await sub.put(b'l', None)
    assert (await sub.get(b'k')).value == b''
    assert (await sub.get(b'l')).value is None
asyncio.run(main())
'''))

bug('c20-delete-error', 'C20', 'a delete through the generated bindings that fails',
    'a delete that fails reports that there was nothing to delete',
    [('src/ffi.rs', "        self.rust_hyperbee.read().await.del(key).await\n", "        Ok(self.rust_hyperbee.read().await.del(key).await.unwrap_or_default())\n")],
    **ffi('''
async def main():
    d = tempfile.mkdtemp()
    hb = await m.hyperbee_from_storage_dir(d)
    await hb.put(b'k', b'v')
    log = bytearray(open(d + '/data', 'rb').read())
    log[-1] ^= 0x7f
    log[-3] ^= 0x7f
    log[-5] ^= 0x7f
    open(d + '/data', 'wb').write(log)
    hb = await m.hyperbee_from_storage_dir(d)
    for op in (hb.get, hb.delete):
        try:
            print(await op(b'k'))
        except m.HyperbeeError.HypercoreError.__mro__[1] as e:
            print('error', e)
        else:
            raise SystemExit(1)
asyncio.run(main())
'''))

bug('c20-second-sub', 'C20', 'a sub-tree of a sub-tree name with a separator other than the default one, through the bindings',
    'a separator that is empty is replaced by the default one',
    [('src/ffi.rs', "        let rust_prefixed = self.rust_hyperbee.read().await.sub(prefix, config);\n", '''        let config = Some(config).filter(|c| !c.seperator.is_empty());
        let rust_prefixed = self
            .rust_hyperbee
            .read()
            .await
            .sub(prefix, config.unwrap_or_default());
''')],
    **ffi('''
async def main():
    hb = await m.hyperbee_from_ram()
    sub = await hb.sub(b'a', m.PrefixedConfig(b''))
    await sub.put(b'k', b'v')
    assert (await hb.get(b'ak')) is not None
asyncio.run(main())
'''))

bug('c16-header-needed', 'C16', 'a reader that has every block of the tree but the header',
    'reads fail on a reader that lacks the first block, which they have no need of',
    [('src/tree.rs', '''        let version = self.version().await;
        if version <= 1 {
''', '''        let version = blocks.info().await.length;
        // make sure that this is a Hyperbee
        if version > 0 && !blocks.has_header().await? {
            return Err(HyperbeeError::NoBlockAtSeqError(0));
        }
        if version <= 1 {
'''),
     ('src/blocks.rs', "    pub async fn info(&self) -> hypercore::Info {", '''    /// Whether there is a first block, which holds the header
    pub async fn has_header(&self) -> Result<bool, HyperbeeError> {
        Ok(self.core.get(0).await?.is_some())
    }

    pub async fn info(&self) -> hypercore::Info {''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..30 {
            h.put(&k(i), None).await.unwrap();
        }
        let mut blocks: Vec<_> = s.blocks().into_iter().map(|b| b.map(|b| b.to_vec())).collect();
        blocks[0] = None;
        let h = open(&CoreState::with_blocks(blocks, false));
        for i in 0..30 {
            assert!(h.get(&k(i)).await.unwrap().is_some());
        }
    })
}
''')

bug('c13-header-swallowed', 'C13', 'a first put on an empty log whose first append fails once, for the header',
    'the put goes on without a header and its entry ends up in the place of the header, where nobody finds it',
    [('src/tree.rs', "                self.ensure_header().await?;\n", '''                if let Err(e) = self.ensure_header().await {
                    tracing::warn!("could not write the header: {e}");
                }
''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        let mut n = 0;
        s.set_policy(Some(Box::new(move |op| {
            if let OpKind::Append(_) = op {
                n += 1;
                if n == 1 {
                    return Decision { verdict: Verdict::ErrBefore, ..Decision::NORMAL };
                }
            }
            Decision::NORMAL
        })));
        let r = h.put(b"a", None).await;
        s.set_policy(None);
        assert!(r.is_err());
        assert_eq!(s.len(), 0);
        h.put(b"a", None).await.unwrap();
        assert_eq!(h.get(b"a").await.unwrap(), Some((1, None)));
    })
}
''')

bug('c11-empty-bound', 'C11', 'a traversal of a sub-tree from the empty key on, exclusive, when the sub-tree has an entry with the empty key',
    'the entry with the empty key is yielded although the bound excludes it',
    [('src/prefixed.rs', '''                Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                conf.min_inclusive,
''', '''                Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                // nothing is lower than the empty key
                conf.min_inclusive || key.is_empty(),
''')],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let sub = h.sub(b"p", Default::default());
        for key in [&b""[..], b"a", b"b"] {
            sub.put(key, None).await.unwrap();
        }
        let c = TraverseConfigBuilder::default().min_value(fin(b"")).min_inclusive(false).build().unwrap();
        let got: Vec<_> = sub.traverse(&c).await.unwrap().map(|x| x.unwrap().key).collect().await;
        assert_eq!(got, [b"a", b"b"]);
    })
}
''')

bug('c11-short-length', 'C11', 'a traversal of a sub-tree whose prefix and separator have 256 bytes or more',
    'too little is stripped from the keys that come out',
    [('src/prefixed.rs', "        let len_drain = self.prefix.len() + self.conf.seperator.len();\n",
      "        let len_drain = (self.prefix.len() + self.conf.seperator.len()) & usize::from(u8::MAX);\n")],
    '''
fn main() {
    run(async {
        let (_s, h) = fresh();
        let sub = h.sub(&[b'x'; 300], Default::default());
        sub.put(b"a", None).await.unwrap();
        let got: Vec<_> = sub.traverse(&Default::default()).await.unwrap().map(|x| x.unwrap().key).collect().await;
        assert_eq!(got, [b"a"]);
    })
}
''')

bug('c17-debug-keys', 'C17', 'a log in which a node has more keys than it may, read by a build with debug assertions',
    'reading the log panics',
    [('src/blocks.rs', '''            for i in (0..(level.children.len())).step_by(2) {
                children.push(Child::new(level.children[i], level.children[i + 1]));
            }
''', '''            debug_assert!(keys.len() <= crate::MAX_KEYS);
            for pair in level.children.chunks_exact(2) {
                children.push(Child::new(pair[0], pair[1]));
            }
''')],
    '''
fn main() {
    run(async {
        // node { index { level { keys: 1 * 9 } }, key "a" }
        let level = [&[0x0a, 9][..], &[1; 9]].concat();
        let index = [&[0x0a, level.len() as u8][..], &level].concat();
        let block = [&[0x0a, index.len() as u8][..], &index, b"\\x12\\x01a"].concat();
        let s = CoreState::with_blocks(vec![Some(b"\\x0a\\x08hyperbee".to_vec()), Some(block)], true);
        let h = open(&s);
        let _ = h.get(b"a").await;
    })
}
''')

bug('c18-prefetch', 'C18', 'any traversal of a tree of two levels or more, of a narrow range or stopped early',
    'all children of a node are read before the first of them is looked at',
    [('src/traverse.rs', '''    let child = node.read().await.get_child(index).await?;
    let mut child_stream''', '''    let node = node.read().await;
    // the others are going to be needed as well
    for other in (0..node.n_children().await).filter(|i| *i != index) {
        let _ = node.get_child(other).await;
    }
    let child = node.get_child(index).await?;
    let mut child_stream''')],
    '''
fn main() {
    run(async {
        let (s, h) = fresh();
        for i in 0..400 {
            h.put(&k(i), None).await.unwrap();
        }
        let h = open(&s);
        let before = s.counters.gets.load(std::sync::atomic::Ordering::SeqCst);
        let c = TraverseConfigBuilder::default().max_value(fin(&k(0))).build().unwrap();
        assert_eq!(all(&h, c).await, [k(0)]);
        let reads = s.counters.gets.load(std::sync::atomic::Ordering::SeqCst) - before;
        assert!(reads < 14, "{reads} blocks read for one entry");
    })
}
''')
