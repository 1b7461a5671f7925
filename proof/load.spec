// Bulk loading.

//@ fn push_stack in lib.rs
//@ inner PalmTree::load
//@ props C09 C10 C12
//@ spec
    requires
        piled(old(stack)@), child@.ok(), child.excl(), snug(child@.st()),
        sorted(held_by(old(stack)@) + ents(child@.st())),
    ensures
        piled(final(stack)@), final(stack)@.len() > 0,
        held_by(final(stack)@) == held_by(old(stack)@) + ents(child@.st()),
        final(stack)@.len() == old(stack)@.len() || (final(stack)@.len() == old(stack)@.len() + 1 && nfull(final(stack)@) == 0 && nfull(old(stack)@) == old(stack)@.len()),
        nfull(final(stack)@) <= nfull(old(stack)@) + 1,
        nfull(final(stack)@) == nfull(final(stack)@.drop_last()) + if fullp(final(stack)@.last()) { 1int } else { 0 },
        0 <= nfull(final(stack)@.drop_last()),
        final(stack)@.len() == 1 ==> whole(final(stack)@),
        old(stack)@.len() > 0 && fullp(old(stack)@.last()) ==> nfull(final(stack)@) <= nfull(old(stack)@) && !fullp(final(stack)@.last()),
        old(stack)@.len() > 0 && !fullp(old(stack)@.last()) ==> final(stack)@.drop_last() == old(stack)@.drop_last() && final(stack)@.len() == old(stack)@.len(),
    decreases old(stack)@.len()
//@ start
    let ghost s0 = stack@;
    let ghost ct = child@.st();
    proof {
        nfull_le(s0);
        if s0.len() > 0 { pile_last(s0); nfull_le(s0.drop_last()); sorted_parts(held_by(s0), ents(ct)); }
        else { assert(row(s0) =~= seq![]); }
    }
//@ before `. push_branch ( $a , $b ) ;`
    let ghost s1 = stack@;
    let ghost pt = parent@.st();
    proof {
        assert(held_by(s1) + ents(pt) =~= held_by(s0)) by { if fresh(pt) { ents_n(pt); assert(kes(pt->kids) =~= seq![]); assert(ents(pt) =~= seq![]); } }
        assert((held_by(s1) + ents(pt)) + ents(ct) =~= held_by(s1) + (ents(pt) + ents(ct)));
        sorted_parts(held_by(s1), ents(pt) + ents(ct));
        snug_push(pt, ct->seps.last(), ct);
    }
//@ after `stack . push ( parent ) ;`
    proof { pile_push(s1, parent); assert(s1.push(parent).drop_last() =~= s1); nfull_le(s1); if s1.len() == 0 { pile_one(s1.push(parent)); } }

//@ fn PalmTree::load in lib.rs
//@ props C04 C09 C10 C12
//@ cfg release
//@ where V: Clone, I: IntoSource<Item = (K, V)>
//@ spec
    requires iter.ready(), iter.items().len() < usize::MAX, sorted(iter.items())
    ensures r.inv(), r.all() == iter.items()
//@ start
    let ghost items = iter.items();
    proof {
        assert forall|s: Pile<K, V, C>| s.len() == 0 implies #[trigger] held_by(s) == Seq::<(K, V)>::empty() by { assert(row(s) =~= seq![]); }
        assert forall|t: ST<K, V>| fresh(t) implies #[trigger] ents(t) == Seq::<(K, V)>::empty() by { fresh_ents(t); }
        assert(items.skip(0) =~= items);
        assert(items.take(0) =~= seq![]);
        sorted_intro(items.take(0));
    }
//@ loop 0
    invariant
        piled(stack@), parent.ok(), !parent.has_branches, fresh(parent.st()) || snug(parent.st()), leaf.ok(),
        size > 0 <==> leaf.length > 0, sorted(items),
        held_by(stack@) + ents(parent.st()) + leaf.ents() == items.take(size as int),
        it_x0.live(), size <= items.len(), it_x0.coming() == items.skip(size as int), items.len() < usize::MAX,
    ensures size == items.len(), items.take(size as int) == items, size == 0 ==> items == Seq::<(K, V)>::empty(), load_ready(held_by(stack@), parent.st(), leaf.ents()), sorted(items)
    decreases it_x0.coming().len()
//@ body 0
    let ghost n0 = size as int;
    let ghost s0 = stack@;
    let ghost t0 = parent.st();
    let ghost l0 = leaf.ents();
    proof {
        load_pre(items, size as int); load_step(held_by(s0), t0, l0);
        if n0 < items.len() { load_next(items, n0, it_x0.coming()); } else { assert(items.take(n0) =~= items); if n0 == 0 { assert(items =~= seq![]); } }
    }
//@ loop 1
    invariant piled(stack@), stack@.len() > 0, stack@.len() == 1 ==> whole(stack@), held_by(stack@) == items, sorted(items)
    ensures stack@.len() == 1
    decreases stack@.len() + nfull(stack@.drop_last())
//@ body 1
    let ghost s1 = stack@;
    proof {
        pile_last(s1);
        let d = s1.drop_last();
        pile_last(d);
        nfull_le(d);
    }

//@ fn PalmTree::load in lib.rs as load_checked
//@ props C04 C09 C12 C16
//@ cfg debug
//@ where V: Clone, I: IntoSource<Item = (K, V)>
//@ sub `rt_stop ( ) ;` => `rt_refuse(Ghost(!sorted(items)));`
//@ spec
    requires iter.ready(), iter.items().len() < usize::MAX
    ensures r.inv(), r.all() == iter.items(), sorted(iter.items())
//@ start
    let ghost items = iter.items();
    proof {
        assert forall|s: Pile<K, V, C>| s.len() == 0 implies #[trigger] held_by(s) == Seq::<(K, V)>::empty() by { assert(row(s) =~= seq![]); }
        assert forall|t: ST<K, V>| fresh(t) implies #[trigger] ents(t) == Seq::<(K, V)>::empty() by { fresh_ents(t); }
        assert(items.skip(0) =~= items);
        assert(items.take(0) =~= seq![]);
        sorted_intro(items.take(0));
    }
//@ loop 0
    invariant
        piled(stack@), parent.ok(), !parent.has_branches, fresh(parent.st()) || snug(parent.st()), leaf.ok(),
        size > 0 <==> leaf.length > 0, sorted(items.take(size as int)),
        last_record is Some == (size > 0), match last_record { Some((n_, k_)) => n_ + 1 == size && k_ == items[size - 1].0, None => true },
        held_by(stack@) + ents(parent.st()) + leaf.ents() == items.take(size as int),
        it_x0.live(), size <= items.len(), it_x0.coming() == items.skip(size as int), items.len() < usize::MAX,
    ensures size == items.len(), items.take(size as int) == items, size == 0 ==> items == Seq::<(K, V)>::empty(), load_ready(held_by(stack@), parent.st(), leaf.ents()), sorted(items)
    decreases it_x0.coming().len()
//@ body 0
    let ghost n0 = size as int;
    let ghost s0 = stack@;
    let ghost t0 = parent.st();
    let ghost l0 = leaf.ents();
    proof {
        load_step(held_by(s0), t0, l0);
        if n0 < items.len() { load_next(items, n0, it_x0.coming()); } else { assert(items.take(n0) =~= items); if n0 == 0 { assert(items =~= seq![]); } }
    }
//@ loop 1
    invariant piled(stack@), stack@.len() > 0, stack@.len() == 1 ==> whole(stack@), held_by(stack@) == items, sorted(items)
    ensures stack@.len() == 1
    decreases stack@.len() + nfull(stack@.drop_last())
//@ body 1
    let ghost s1 = stack@;
    proof {
        pile_last(s1);
        let d = s1.drop_last();
        pile_last(d);
        nfull_le(d);
    }
