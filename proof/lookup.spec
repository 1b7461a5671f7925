// Lookups through the nodes.

//@ fn Branch::get in branch.rs
//@ props C01
//@ spec
    requires self.ok(), wf(self.st(), false)
    ensures match r {
        Some(v) => get_of(ents(self.st()), rank(*key)) == Some(*v),
        None => get_of(ents(self.st()), rank(*key)) is None,
    }
//@ loop 0
    invariant
        branch.ok(), wf(branch.st(), false),
        get_of(ents(self.st()), rank(*key)) == get_of(ents(branch.st()), rank(*key)),
    decreases branch.st()
//@ body 0
    proof { descend(branch.st(), rank(*key), false); }

//@ fn Branch::get_linear in branch.rs
//@ props C01
//@ spec
    requires self.ok(), wf(self.st(), false)
    ensures match r {
        Some(v) => get_of(ents(self.st()), rank(*key)) == Some(*v),
        None => get_of(ents(self.st()), rank(*key)) is None,
    }
//@ loop 0
    invariant
        branch.ok(), wf(branch.st(), false),
        get_of(ents(self.st()), rank(*key)) == get_of(ents(branch.st()), rank(*key)),
    decreases branch.st()
//@ body 0
    proof { descend(branch.st(), rank(*key), false); }

//@ fn Branch::get_mut in branch.rs
//@ props C01 C07
//@ spec
    requires old(self).ok(), wf(old(self).st(), false)
    ensures
        final(self).ok(), wf(final(self).st(), false), final(self).length == old(self).length,
        spine(old(self).st(), None) ==> spine(final(self).st(), None),
        match r {
            Some(v) => get_of(ents(old(self).st()), rank(*key)) == Some(*v) && ents(final(self).st()) == put(ents(old(self).st()), *key, *final(v)),
            None => get_of(ents(old(self).st()), rank(*key)) is None && final(self).st() == old(self).st(),
        },
//@ start
    let ghost t = self.st();
    let ghost fin = *final(self);
    let ghost mut p: Seq<int> = seq![];
//@ loop 0
    invariant
        fin == *final(self), branch.ok(), branch.st() == at(t, p), kpath(t, p, rank(*key)), wf(t, false), t == old(self).st(),
        p.len() == 0 ==> branch.length == old(self).length,
        final(branch).ok() && final(branch).length == branch.length ==> fin.ok() && fin.st() == upd(t, p, final(branch).st()) && fin.length == old(self).length,
    decreases branch.st()
//@ body 0
    proof { path_find(t, p, rank(*key)); descend(branch.st(), rank(*key), false); upd_id(t, p); }
//@ before `return branch . get_leaf_mut ( $i ) . get_mut`
    proof {
        let q = p.push(index as int);
        path_push(t, p, index as int);
        path_find(t, q, rank(*key));
        let es = ents(at(t, q));
        assert forall|v: V| #![trigger put(es, *key, v)] holds(es, rank(*key)) implies {
            let c = ST::L(put(es, *key, v));
            &&& wf(upd(t, q, c), false)
            &&& spine(t, None) ==> spine(upd(t, q, c), None)
            &&& ents(upd(t, q, c)) == put(ents(t), *key, v)
        } by {
            put_props(es, *key, v);
            path_put(t, q, *key, v, ST::L(put(es, *key, v)), false);
            if spine(t, None) { tight_spine(t); path_put(t, q, *key, v, ST::L(put(es, *key, v)), true); spine_tight(upd(t, q, ST::L(put(es, *key, v)))); }
        }
        with_kid_id(at(t, p), index as int);
    }
//@ after `branch = branch . get_branch_mut ( $i ) ;`
    proof { path_push(t, p, index as int); p = p.push(index as int); }
