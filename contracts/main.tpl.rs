//@include prelude.rs
//@include deps.rs
// =====================================================================================
// Capability values
// =====================================================================================
/*@type Capability@*/
/*@type Capabilities noeq@*/
pub type AbilitiesImpl = VMap<String, Vec<Value>>;
pub type CapabilitiesImpl = VMap<String, AbilitiesImpl>;
impl VEq<Capabilities> for Capabilities { open spec fn s_eq(&self, o: &Capabilities) -> bool { *self == *o } #[verifier::external_body] fn v_eq(&self, o: &Capabilities) -> (r: bool) { unimplemented!() } }
pub type FactsMap = VMap<String, Value>;

/// the capabilities of a map, in map order and caveat order
pub open spec fn mk_cap(res: String, abil: String, v: Value) -> Capability { Capability { resource: res, ability: abil, caveat: v } }
pub open spec fn cav_caps(res: String, abil: String, c: Seq<Value>) -> Seq<Capability> { Seq::new(c.len(), |i: int| mk_cap(res, abil, c[i])) }
pub open spec fn ab_caps(res: String, e: Seq<(String, Vec<Value>)>) -> Seq<Capability> decreases e.len() { if e.len() == 0 { Seq::<Capability>::empty() } else { ab_caps(res, e.drop_last()) + cav_caps(res, e.last().0, e.last().1@) } }
pub open spec fn res_caps(e: Seq<(String, AbilitiesImpl)>) -> Seq<Capability> decreases e.len() { if e.len() == 0 { Seq::<Capability>::empty() } else { res_caps(e.drop_last()) + ab_caps(e.last().0, e.last().1.ents()) } }
pub open spec fn caps_of(c: &Capabilities) -> Seq<Capability> { res_caps(c.0.ents()) }
/*@fn Capability::new
spec
    ensures r == mk_cap(resource, ability, caveat)
@*/
/*@impl impl<'a> VFrom<&'a Capability> for Capability@*/
    open spec fn s_from(t: &'a Capability, r: Capability) -> bool { r == *t }
/*@fn <Capability as From<&Capability>>::from
params
    value: &'a Capability
@*/
/*@endimpl@*/
/*@impl impl VFrom<(String, String, Value)> for Capability@*/
    open spec fn s_from(t: (String, String, Value), r: Capability) -> bool { r == mk_cap(t.0, t.1, t.2) }
/*@fn <Capability as From<(String,String,Value)>>::from
@*/
/*@endimpl@*/
/*@impl impl<'a, 'b, 'c> VFrom<(&'a str, &'b str, &'c Value)> for Capability@*/
    open spec fn s_from(t: (&'a str, &'b str, &'c Value), r: Capability) -> bool { r.resource@ == t.0@ && r.ability@ == t.1@ && r.caveat == *t.2 }
/*@fn <Capability as From<(&str,&str,&Value)>>::from
params
    value: (&'a str, &'b str, &'c Value)
@*/
/*@endimpl@*/
/*@impl impl VFrom<Capability> for (String, String, Value)@*/
    open spec fn s_from(t: Capability, r: (String, String, Value)) -> bool { t == mk_cap(r.0, r.1, r.2) }
/*@fn <(String,String,Value) as From<Capability>>::from
@*/
/*@endimpl@*/

/// a collection as a map of maps of lists
pub type DCaps = Map<Seq<char>, Map<Seq<char>, Seq<Value>>>;
pub open spec fn av(a: AbilitiesImpl) -> Map<Seq<char>, Seq<Value>> { a@.map_values(|v: Vec<Value>| v@) }
pub open spec fn dv(m: CapabilitiesImpl) -> DCaps { m@.map_values(|a: AbilitiesImpl| av(a)) }
/// every resource has an ability, every caveat is an object
pub open spec fn wf_d(d: DCaps) -> bool {
    &&& forall|r: Seq<char>| #[trigger] d.contains_key(r) ==> exists|a: Seq<char>| #[trigger] d[r].contains_key(a)
    &&& forall|r: Seq<char>, a: Seq<char>, i: int| d.contains_key(r) && d[r].contains_key(a) && 0 <= i < d[r][a].len() ==> (#[trigger] d[r][a][i]) is Object
}
pub open spec fn slot(d: DCaps, r: Seq<char>, a: Seq<char>) -> Seq<Value> { if d.contains_key(r) && d[r].contains_key(a) { d[r][a] } else { Seq::empty() } }
pub open spec fn abs_at(d: DCaps, r: Seq<char>) -> Map<Seq<char>, Seq<Value>> { if d.contains_key(r) { d[r] } else { Map::empty() } }
pub open spec fn add_cap(d: DCaps, c: Capability) -> DCaps { d.insert(c.resource@, abs_at(d, c.resource@).insert(c.ability@, slot(d, c.resource@, c.ability@).push(c.caveat))) }
pub open spec fn build_caps(s: Seq<Capability>) -> DCaps decreases s.len() { if s.len() == 0 { Map::empty() } else { add_cap(build_caps(s.drop_last()), s.last()) } }
pub open spec fn all_obj(s: Seq<Capability>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).caveat is Object }
/// the caveats claimed for one resource and ability, in order
pub open spec fn proj(s: Seq<Capability>, r: Seq<char>, a: Seq<char>) -> Seq<Value> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let p = proj(s.drop_last(), r, a); if s.last().resource@ == r && s.last().ability@ == a { p.push(s.last().caveat) } else { p } } }
pub proof fn lem_build_wf(s: Seq<Capability>) requires all_obj(s) ensures wf_d(build_caps(s)) decreases s.len() {
    if s.len() > 0 {
        lem_build_wf(s.drop_last());
        let d = build_caps(s.drop_last()); let c = s.last(); let e = build_caps(s);
        assert(e[c.resource@].contains_key(c.ability@));
        assert(s[s.len() - 1].caveat is Object);
        assert forall|r: Seq<char>| #[trigger] e.contains_key(r) implies exists|a: Seq<char>| #[trigger] e[r].contains_key(a) by { if r != c.resource@ { assert(d.contains_key(r)); assert(e[r] == d[r]); let a = choose|a: Seq<char>| #[trigger] d[r].contains_key(a); assert(e[r].contains_key(a)); } }
    }
}
pub open spec fn objs(s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Object }
/// one resource's abilities are well formed, by entries
pub open spec fn ok_ab(a: AbilitiesImpl) -> bool { a.ents().len() > 0 && forall|j: int| 0 <= j < a.ents().len() ==> objs((#[trigger] a.ents()[j]).1@) }
pub proof fn lem_wf_ents(t: CapabilitiesImpl) ensures wf_d(dv(t)) <==> (forall|j: int| 0 <= j < t.ents().len() ==> ok_ab((#[trigger] t.ents()[j]).1)) {
    let d = dv(t); let e = t.ents();
    if wf_d(d) {
        assert forall|j: int| 0 <= j < e.len() implies ok_ab((#[trigger] e[j]).1) by {
            let r = e[j].0@; let m = e[j].1; let f = m.ents();
            assert(t@.contains_key(r)); assert(d.contains_key(r)); assert(d[r] == av(m));
            let a = choose|a: Seq<char>| #[trigger] d[r].contains_key(a); assert(m@.contains_key(a));
            assert forall|k: int| 0 <= k < f.len() implies objs((#[trigger] f[k]).1@) by {
                assert(m@.contains_key(f[k].0@)); assert(d[r].contains_key(f[k].0@)); assert(d[r][f[k].0@] == f[k].1@);
                assert forall|i: int| 0 <= i < f[k].1@.len() implies (#[trigger] f[k].1@[i]) is Object by { assert(d[r][f[k].0@][i] is Object); }
            }
        }
    }
    if forall|j: int| 0 <= j < e.len() ==> ok_ab((#[trigger] e[j]).1) {
        assert forall|r: Seq<char>| #[trigger] d.contains_key(r) implies exists|a: Seq<char>| #[trigger] d[r].contains_key(a) by {
            assert(t@.contains_key(r)); let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kv() == r;
            assert(ok_ab(e[j].1)); let f = e[j].1.ents(); assert(e[j].1@.contains_key(f[0].0.kv())); assert(d[r].contains_key(f[0].0@));
        }
        assert forall|r: Seq<char>, a: Seq<char>, i: int| d.contains_key(r) && d[r].contains_key(a) && 0 <= i < d[r][a].len() implies (#[trigger] d[r][a][i]) is Object by {
            assert(t@.contains_key(r)); let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kv() == r;
            let m = e[j].1; assert(ok_ab(m)); let f = m.ents(); assert(m@.contains_key(a)); let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).0.kv() == a; assert(objs(f[k].1@));
        }
    }
}
/*@impl impl VTryFrom<CapabilitiesImpl> for Capabilities@*/
    open spec fn s_try_from(t: CapabilitiesImpl, r: Result<Capabilities, Error>) -> bool { if wf_d(dv(t)) { r == Ok::<Capabilities, Error>(Capabilities(t)) } else { r is Err } }
/*@fn <Capabilities as TryFrom<CapabilitiesImpl>>::try_from
loop 0 inv
    forall|j: int| 0 <= j < __it0.pos() ==> ok_ab((#[trigger] value.ents()[j]).1)
loop 1 inv
    forall|j: int| 0 <= j < __it1.pos() ==> objs((#[trigger] abilities.ents()[j]).1@)
loop 2 inv
    forall|j: int| 0 <= j < __it2.pos() ==> *(#[trigger] __s2[j]) is Object
proof start
    let ghost ve = value.ents();
    proof { lem_wf_ents(value); }
proof loop 2 post
    assert forall|i: int| 0 <= i < abilities.ents()[__it1.pos() - 1].1@.len() implies (#[trigger] abilities.ents()[__it1.pos() - 1].1@[i]) is Object by { assert(*__s2[i] is Object); }
@*/
/*@endimpl@*/
/*@impl impl VTryFrom<Vec<Capability>> for Capabilities@*/
    open spec fn s_try_from(t: Vec<Capability>, r: Result<Capabilities, Error>) -> bool { if all_obj(t@) { r is Ok && dv(r->Ok_0.0) == build_caps(t@) } else { r is Err } }
/*@fn <Capabilities as TryFrom<Vec<Capability>>>::try_from
attr
    #[verifier::spinoff_prover]
loop 0 inv
    all_obj(__s0.subrange(0, __it0.pos())), dv(resources) == build_caps(__s0.subrange(0, __it0.pos()))
proof loop 0 pre
    assert(dv(resources) =~= Map::empty());
proof loop 0 start
    let ghost r0 = resources;
proof loop 0 end
    assert(av(resources@[capability.resource@]) =~= abs_at(dv(r0), capability.resource@).insert(capability.ability@, slot(dv(r0), capability.resource@, capability.ability@).push(capability.caveat)));
    assert(dv(resources) =~= add_cap(dv(r0), capability));
    assert(capability == __s0[__it0.pos() - 1]);
    assert(all_obj(__s0.subrange(0, __it0.pos())));
proof loop 0 post
    lem_build_wf(__s0);
@*/
/*@endimpl@*/
pub open spec fn json_ab(v: Value) -> Map<Seq<char>, Seq<Value>> { v->Object_0@.map_values(|x: Value| x->Array_0@) }
pub open spec fn json_caps(v: Value) -> DCaps { v->Object_0@.map_values(|x: Value| json_ab(x)) }
/// a JSON value that is an object of objects of arrays
pub open spec fn json_ab_ok(v: Value) -> bool { v is Object && forall|a: Seq<char>| #[trigger] v->Object_0@.contains_key(a) ==> v->Object_0@[a] is Array && objs(v->Object_0@[a]->Array_0@) }
pub open spec fn json_caps_ok(v: Value) -> bool { v is Object && (forall|r: Seq<char>| #[trigger] v->Object_0@.contains_key(r) ==> json_ab_ok(v->Object_0@[r])) && wf_d(json_caps(v)) }
/// the first n entries are exactly what a map holds, related by f
pub open spec fn built<V, W>(e: Seq<(String, V)>, n: int, m: Map<Seq<char>, W>, f: spec_fn(V, W) -> bool) -> bool {
    (forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == k) && (forall|j: int| 0 <= j < n ==> m.contains_key((#[trigger] e[j]).0@) && f(e[j].1, m[e[j].0@]))
}
pub proof fn lem_built_step<V, W>(src: &VMap<String, V>, n: int, m: Map<Seq<char>, W>, f: spec_fn(V, W) -> bool, w: W)
    requires built(src.ents(), n, m, f), 0 <= n < src.ents().len(), f(src.ents()[n].1, w) ensures built(src.ents(), n + 1, m.insert(src.ents()[n].0@, w), f)
{
    let e = src.ents(); let m1 = m.insert(e[n].0@, w);
    assert forall|k: Seq<char>| #[trigger] m1.contains_key(k) implies exists|j: int| 0 <= j < n + 1 && (#[trigger] e[j]).0@ == k by { if k == e[n].0@ { assert(e[n].0@ == k); } else { assert(m.contains_key(k)); let j = choose|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == k; assert(0 <= j < n + 1 && e[j].0@ == k); } }
    assert forall|j: int| 0 <= j < n + 1 implies m1.contains_key((#[trigger] e[j]).0@) && f(e[j].1, m1[e[j].0@]) by { if j < n { assert(e[j].0.kv() != e[n].0.kv()); } }
}
pub open spec fn f_arr() -> spec_fn(Value, Vec<Value>) -> bool { |v: Value, w: Vec<Value>| v is Array && objs(v->Array_0@) && w@ == v->Array_0@ }
pub open spec fn f_abs() -> spec_fn(Value, AbilitiesImpl) -> bool { |v: Value, w: AbilitiesImpl| json_ab_ok(v) && av(w) == json_ab(v) }
pub proof fn lem_built_ab(v: Value, w: AbilitiesImpl) requires v is Object, built(v->Object_0.ents(), v->Object_0.ents().len() as int, w@, f_arr()) ensures f_abs()(v, w) {
    let o = v->Object_0; let e = o.ents();
    assert forall|k: Seq<char>| w@.contains_key(k) <==> o@.contains_key(k) by { if o@.contains_key(k) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kv() == k; assert(w@.contains_key(e[j].0@)); } if w@.contains_key(k) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0@ == k; assert(o@.contains_key(e[j].0.kv())); } }
    assert forall|a: Seq<char>| #[trigger] o@.contains_key(a) implies o@[a] is Array && objs(o@[a]->Array_0@) && w@[a]@ == o@[a]->Array_0@ by { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kv() == a; assert(f_arr()(e[j].1, w@[e[j].0@])); }
    assert(av(w) =~= json_ab(v));
}
pub proof fn lem_built_caps(v: Value, w: CapabilitiesImpl) requires v is Object, built(v->Object_0.ents(), v->Object_0.ents().len() as int, w@, f_abs())
    ensures dv(w) == json_caps(v), forall|r: Seq<char>| #[trigger] v->Object_0@.contains_key(r) ==> json_ab_ok(v->Object_0@[r]) {
    let o = v->Object_0; let e = o.ents();
    assert forall|k: Seq<char>| w@.contains_key(k) <==> o@.contains_key(k) by { if o@.contains_key(k) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kv() == k; assert(w@.contains_key(e[j].0@)); } if w@.contains_key(k) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0@ == k; assert(o@.contains_key(e[j].0.kv())); } }
    assert forall|a: Seq<char>| #[trigger] o@.contains_key(a) implies json_ab_ok(o@[a]) && av(w@[a]) == json_ab(o@[a]) by { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kv() == a; assert(f_abs()(e[j].1, w@[e[j].0@])); }
    assert(dv(w) =~= json_caps(v));
}
/*@impl impl<'a> VTryFrom<&'a Value> for Capabilities@*/
    open spec fn s_try_from(t: &'a Value, r: Result<Capabilities, Error>) -> bool { if json_caps_ok(*t) { r is Ok && dv(r->Ok_0.0) == json_caps(*t) } else { r is Err } }
/*@fn <Capabilities as TryFrom<&Value>>::try_from
params
    value: &'a Value
loop 0 inv
    built(map.ents(), __it0.pos(), resources@, f_abs())
loop 1 inv
    built(abilities_object.ents(), __it1.pos(), abilities@, f_arr())
loop 2 inv
    objs(caveats@), caveats@ == array@.subrange(0, __it2.pos())
proof start
    let ghost v0 = *value;
proof loop 0 pre
    let ghost me = map.ents();
proof loop 0 start
    assert(map@.contains_key(me[__it0.pos() - 1].0.kv()));
    let ghost rs0 = resources@;
proof loop 1 pre
    let ghost ae = abilities_object.ents();
proof loop 1 start
    assert(abilities_object@.contains_key(ae[__it1.pos() - 1].0.kv()));
    let ghost ab0 = abilities@;
proof loop 1 end
    lem_built_step(abilities_object, __it1.pos() - 1, ab0, f_arr(), caveats);
proof loop 1 post
    lem_built_ab(Value::Object(*abilities_object), abilities);
proof loop 0 end
    lem_built_step(map, __it0.pos() - 1, rs0, f_abs(), abilities);
proof loop 0 post
    lem_built_caps(v0, resources);
@*/
/*@endimpl@*/
/*@fn Capabilities::iter
spec
    ensures r.pos() == 0, r.seq() == caps_of(self)
loop 0 inv
    __out0@ == res_caps(self.0.ents().subrange(0, __it0.pos()))
loop 1 inv
    __out1@ == ab_caps(*resource, abilities.ents().subrange(0, __it1.pos()))
loop 2 inv
    __out2@ == cav_caps(*resource, *ability, caveats@.subrange(0, __it2.pos()))
proof loop 2 end
    assert(__out2@ =~= cav_caps(*resource, *ability, caveats@.subrange(0, __it2.pos())));
proof loop 1 end
    assert(abilities.ents().subrange(0, __it1.pos()).last() == abilities.ents()[__it1.pos() - 1]);
    assert(cav_caps(*resource, abilities.ents()[__it1.pos() - 1].0, Seq::empty()) =~= Seq::empty());
    assert(__out1@ =~= ab_caps(*resource, abilities.ents().subrange(0, __it1.pos())));
proof loop 0 end
    assert(self.0.ents().subrange(0, __it0.pos()).last() == self.0.ents()[__it0.pos() - 1]);
    assert(__out0@ =~= res_caps(self.0.ents().subrange(0, __it0.pos())));
@*/
// ---- C11: nothing lost, nothing added
pub proof fn lem_proj_cat(s: Seq<Capability>, t: Seq<Capability>, r: Seq<char>, a: Seq<char>) ensures proj(s + t, r, a) == proj(s, r, a) + proj(t, r, a) decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); assert(proj(s, r, a) + proj(t, r, a) =~= proj(s, r, a)); }
    else { assert((s + t).drop_last() =~= s + t.drop_last()); lem_proj_cat(s, t.drop_last(), r, a); assert((s + t).last() == t.last());
        assert(proj(s + t, r, a) =~= proj(s, r, a) + proj(t, r, a)); }
}
/// a collection built from a sequence holds, for each resource and ability, exactly its caveats in order; nothing else
pub proof fn p_c11_build(s: Seq<Capability>, r: Seq<char>, a: Seq<char>)
    ensures slot(build_caps(s), r, a) == proj(s, r, a), build_caps(s).contains_key(r) && build_caps(s)[r].contains_key(a) ==> proj(s, r, a).len() > 0, build_caps(s).contains_key(r) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).resource@ == r
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); p_c11_build(t, r, a);
        if build_caps(s).contains_key(r) { if r == s.last().resource@ { assert(s[s.len() - 1].resource@ == r); } else { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).resource@ == r; assert(s[i].resource@ == r); } }
    }
}
pub proof fn lem_proj_cav(res: String, abil: String, c: Seq<Value>, r: Seq<char>, a: Seq<char>) ensures proj(cav_caps(res, abil, c), r, a) == (if res@ == r && abil@ == a { c } else { Seq::<Value>::empty() }) decreases c.len() {
    if c.len() > 0 { lem_proj_cav(res, abil, c.drop_last(), r, a); assert(cav_caps(res, abil, c).drop_last() =~= cav_caps(res, abil, c.drop_last())); if res@ == r && abil@ == a { assert(c.drop_last().push(c.last()) =~= c); } }
    else { assert(c =~= Seq::<Value>::empty()); }
}
pub open spec fn proj_abs(e: Seq<(String, Vec<Value>)>, a: Seq<char>) -> Seq<Value> decreases e.len() { if e.len() == 0 { Seq::empty() } else { proj_abs(e.drop_last(), a) + (if e.last().0@ == a { e.last().1@ } else { Seq::<Value>::empty() }) } }
pub proof fn lem_proj_abs(res: String, e: Seq<(String, Vec<Value>)>, r: Seq<char>, a: Seq<char>) ensures proj(ab_caps(res, e), r, a) == (if res@ == r { proj_abs(e, a) } else { Seq::<Value>::empty() }) decreases e.len() {
    if e.len() > 0 {
        lem_proj_abs(res, e.drop_last(), r, a); lem_proj_cav(res, e.last().0, e.last().1@, r, a);
        lem_proj_cat(ab_caps(res, e.drop_last()), cav_caps(res, e.last().0, e.last().1@), r, a);
        assert(Seq::<Value>::empty() + Seq::<Value>::empty() =~= Seq::<Value>::empty());
    }
}
pub proof fn lem_proj_abs_one(m: AbilitiesImpl, a: Seq<char>, n: int) requires 0 <= n <= m.ents().len()
    ensures proj_abs(m.ents().subrange(0, n), a) == (if exists|j: int| 0 <= j < n && (#[trigger] m.ents()[j]).0@ == a { m@[a]@ } else { Seq::<Value>::empty() }) decreases n
{
    let e = m.ents();
    if n > 0 {
        lem_proj_abs_one(m, a, n - 1); assert(e.subrange(0, n).last() == e[n - 1]); assert(e.subrange(0, n).drop_last() =~= e.subrange(0, n - 1));
        assert(m@[e[n - 1].0.kv()] == e[n - 1].1);
        if e[n - 1].0@ == a { assert forall|j: int| 0 <= j < n - 1 implies (#[trigger] e[j]).0@ != a by { assert(e[j].0.kv() != e[n - 1].0.kv()); } assert(Seq::<Value>::empty() + e[n - 1].1@ =~= e[n - 1].1@); assert(exists|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == a); }
        else { if exists|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == a { let j = choose|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == a; assert(j < n - 1); assert(exists|j: int| 0 <= j < n - 1 && (#[trigger] e[j]).0@ == a); } assert(proj_abs(e.subrange(0, n - 1), a) + Seq::<Value>::empty() =~= proj_abs(e.subrange(0, n - 1), a)); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lem_proj_res(m: CapabilitiesImpl, r: Seq<char>, a: Seq<char>, n: int) requires 0 <= n <= m.ents().len()
    ensures proj(res_caps(m.ents().subrange(0, n)), r, a) == (if exists|j: int| 0 <= j < n && (#[trigger] m.ents()[j]).0@ == r { slot(dv(m), r, a) } else { Seq::<Value>::empty() }) decreases n
{
    let e = m.ents();
    if n > 0 {
        lem_proj_res(m, r, a, n - 1); assert(e.subrange(0, n).last() == e[n - 1]); assert(e.subrange(0, n).drop_last() =~= e.subrange(0, n - 1));
        let x = e[n - 1]; assert(m@.contains_key(x.0.kv()) && m@[x.0.kv()] == x.1);
        lem_proj_abs(x.0, x.1.ents(), r, a); lem_proj_cat(res_caps(e.subrange(0, n - 1)), ab_caps(x.0, x.1.ents()), r, a);
        lem_proj_abs_one(x.1, a, x.1.ents().len() as int); assert(x.1.ents().subrange(0, x.1.ents().len() as int) =~= x.1.ents());
        if x.0@ == r {
            assert forall|j: int| 0 <= j < n - 1 implies (#[trigger] e[j]).0@ != r by { assert(e[j].0.kv() != x.0.kv()); }
            assert(exists|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == r);
            let f = x.1.ents();
            if x.1@.contains_key(a) { let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).0.kv() == a; assert(f[k].0@ == a); assert(dv(m)[r][a] == x.1@[a]@); }
            else if exists|j: int| 0 <= j < f.len() && (#[trigger] f[j]).0@ == a { let j = choose|j: int| 0 <= j < f.len() && (#[trigger] f[j]).0@ == a; assert(x.1@.contains_key(f[j].0.kv())); }
            assert(Seq::<Value>::empty() + slot(dv(m), r, a) =~= slot(dv(m), r, a));
        } else {
            if exists|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == r { let j = choose|j: int| 0 <= j < n && (#[trigger] e[j]).0@ == r; assert(j < n - 1); assert(exists|j: int| 0 <= j < n - 1 && (#[trigger] e[j]).0@ == r); }
            assert(proj(res_caps(e.subrange(0, n - 1)), r, a) + Seq::<Value>::empty() =~= proj(res_caps(e.subrange(0, n - 1)), r, a));
        }
    }
}
/// iterating a collection yields, for each resource and ability, exactly its caveats in order
pub proof fn p_c11_iter(c: &Capabilities, r: Seq<char>, a: Seq<char>) ensures proj(caps_of(c), r, a) == slot(dv(c.0), r, a) {
    let e = c.0.ents(); lem_proj_res(c.0, r, a, e.len() as int); assert(e.subrange(0, e.len() as int) =~= e);
    if c.0@.contains_key(r) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0.kv() == r; assert(e[j].0@ == r); }
    else if exists|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0@ == r { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0@ == r; assert(c.0@.contains_key(e[j].0.kv())); }
}
/// a well-formed collection made from a sequence and read back keeps each list of caveats
pub proof fn p_c11_roundtrip(s: Seq<Capability>, c: &Capabilities, r: Seq<char>, a: Seq<char>) requires dv(c.0) == build_caps(s) ensures proj(caps_of(c), r, a) == proj(s, r, a) { p_c11_iter(c, r, a); p_c11_build(s, r, a); }



// =====================================================================================
// Caveats
// =====================================================================================
/*@type Caveat@*/
/// a caveat enables another: its entries are a subset of the other's
pub open spec fn cav_sub(a: Map<Seq<char>, Value>, b: Map<Seq<char>, Value>) -> bool { forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && a[k] == b[k] }
/*@impl impl VEq<Caveat> for Caveat@*/
    open spec fn s_eq(&self, o: &Caveat) -> bool { self.0@ == o.0@ }
/*@fn <Caveat as PartialEq>::eq
@*/
/*@endimpl@*/
/*@fn Caveat::enables
spec
    ensures r == cav_sub(self.0@, other.0@)
loop 0 inv
    forall|j: int| 0 <= j < __it0.pos() ==> other.0@.contains_key((#[trigger] self.0.ents()[j]).0@) && other.0@[self.0.ents()[j].0@] == self.0.ents()[j].1
proof start
    let ghost e = self.0.ents(); let ghost oe = other.0.ents();
    assert(e.len() > 0 ==> self.0@.contains_key(e[0].0.kv()));
    proof { if cav_sub(self.0@, other.0@) { lem_submap_len(&self.0, &other.0); } }
@*/
/*@impl impl VTryFrom<Value> for Caveat@*/
    open spec fn s_try_from(t: Value, r: Result<Caveat, Error>) -> bool { match t { Value::Object(m) => r == Ok::<Caveat, Error>(Caveat(m)), _ => r is Err } }
/*@fn <Caveat as TryFrom<Value>>::try_from
@*/
/*@endimpl@*/
/*@impl impl<'a> VTryFrom<&'a Value> for Caveat@*/
    open spec fn s_try_from(t: &'a Value, r: Result<Caveat, Error>) -> bool { match *t { Value::Object(m) => r == Ok::<Caveat, Error>(Caveat(m)), _ => r is Err } }
/*@fn <Caveat as TryFrom<&Value>>::try_from
params
    value: &'a Value
@*/
/*@endimpl@*/
pub proof fn p_c10_laws(a: Map<Seq<char>, Value>, b: Map<Seq<char>, Value>, c: Map<Seq<char>, Value>)
    ensures cav_sub(Map::empty(), a), cav_sub(a, Map::empty()) ==> a == Map::<Seq<char>, Value>::empty(), cav_sub(a, a), cav_sub(a, b) && cav_sub(b, c) ==> cav_sub(a, c)
{
    if cav_sub(a, Map::empty()) { assert(a =~= Map::<Seq<char>, Value>::empty()); }
}

// =====================================================================================
// Semantics
// =====================================================================================
/// a scope of resources: printing and parsing are functions, `contains` is the implementor's relation
pub trait Scope: VToString + VTryFrom<Url> + VEq + VClone {
    spec fn s_of(u: Url) -> Option<Self>;
    spec fn s_contains(&self, other: &Self) -> bool;
    proof fn law_try() ensures forall|u: Url, r: Result<Self, Error>| #[trigger] Self::s_try_from(u, r) ==> match Self::s_of(u) { Some(s) => r == Ok::<Self, Error>(s), None => r is Err };
    fn v_contains(&self, other: &Self) -> (r: bool) ensures r == self.s_contains(other);
}
pub trait Ability: VOrd + VTryFrom<String> + VToString + VClone + VEq {
    spec fn s_of(t: Seq<char>) -> Option<Self>;
    proof fn law_try() ensures forall|t: String, r: Result<Self, Error>| #[trigger] Self::s_try_from(t, r) ==> match Self::s_of(t@) { Some(s) => r == Ok::<Self, Error>(s), None => r is Err };
    /// Ord: the order is total and its four operators agree
    proof fn law_ord() ensures forall|a: &Self, b: &Self| #[trigger] a.s_lt(b) == !a.s_ge(b), forall|a: &Self, b: &Self| #[trigger] a.s_gt(b) == !a.s_le(b), forall|a: &Self, b: &Self| #[trigger] a.s_le(b) == b.s_ge(a);
}
/*@type ResourceUri@*/
/*@type Resource@*/
/*@type CapabilityView@*/
/// an unscoped container holds everything, a scope what it contains, and never the unscoped
pub open spec fn uri_contains<S: Scope>(a: &ResourceUri<S>, b: &ResourceUri<S>) -> bool {
    match *a { ResourceUri::Unscoped => true, ResourceUri::Scoped(s) => match *b { ResourceUri::Scoped(t) => s.s_contains(&t), ResourceUri::Unscoped => false } }
}
/// same kind, same DID, and a container of the other's scope
pub open spec fn res_contains<S: Scope>(a: &Resource<S>, b: &Resource<S>) -> bool {
    match (*a, *b) {
        (Resource::Resource { kind: x }, Resource::Resource { kind: y }) => uri_contains(&x, &y),
        (Resource::My { kind: x }, Resource::My { kind: y }) => uri_contains(&x, &y),
        (Resource::As { did: d, kind: x }, Resource::As { did: e, kind: y }) => d@ == e@ && uri_contains(&x, &y),
        _ => false,
    }
}
pub open spec fn view_enables<S: Scope, A: Ability>(a: &CapabilityView<S, A>, b: &CapabilityView<S, A>) -> bool {
    res_contains(&a.resource, &b.resource) && a.ability.s_ge(&b.ability) && a.caveat is Object && b.caveat is Object && cav_sub(a.caveat->Object_0@, b.caveat->Object_0@)
}
pub open spec fn uri_str<S: Scope>(a: &ResourceUri<S>) -> Seq<char> { match *a { ResourceUri::Unscoped => "*"@, ResourceUri::Scoped(s) => s.s_str() } }
pub open spec fn res_str<S: Scope>(a: &Resource<S>) -> Seq<char> {
    match *a { Resource::Resource { kind } => uri_str(&kind), Resource::My { kind } => "my:"@ + uri_str(&kind), Resource::As { did, kind } => "as:"@ + did@ + ":"@ + uri_str(&kind) }
}
/*@impl impl<S: Scope> ResourceUri<S>@*/
/*@fn ResourceUri::contains
spec
    ensures r == uri_contains(self, other)
@*/
/*@endimpl@*/
/*@impl impl<S: Scope> VToString for ResourceUri<S>@*/
    open spec fn s_str(&self) -> Seq<char> { uri_str(self) }
/*@fn <ResourceUri<S> as ToString>::to_string
@*/
/*@endimpl@*/
/*@impl impl<S: Scope> Resource<S>@*/
/*@fn Resource::contains
spec
    ensures r == res_contains(self, other)
@*/
/*@endimpl@*/
/*@impl impl<S: Scope> VToString for Resource<S>@*/
    open spec fn s_str(&self) -> Seq<char> { res_str(self) }
/*@fn <Resource<S> as ToString>::to_string
proof ret
    reveal_strlit("as"); reveal_strlit("my"); reveal_strlit(":"); reveal_strlit("as:"); reveal_strlit("my:");
    assert(__ret@ =~= res_str(self));
@*/
/*@endimpl@*/
pub open spec fn mk_view<S: Scope, A: Ability>(r: Resource<S>, a: A, c: Value) -> CapabilityView<S, A> { CapabilityView { resource: r, ability: a, caveat: c } }
/*@fn CapabilityView::new
spec
    ensures r.resource == resource, r.ability == ability, r.caveat is Object, r.caveat->Object_0@ == Map::<Seq<char>, Value>::empty()
@*/
/*@fn CapabilityView::new_with_caveat
spec
    ensures r == mk_view(resource, ability, caveat)
@*/
/*@fn CapabilityView::resource
spec
    ensures *r == self.resource
@*/
/*@fn CapabilityView::ability
spec
    ensures *r == self.ability
@*/
/*@fn CapabilityView::caveat
spec
    ensures *r == self.caveat
@*/
/*@fn CapabilityView::enables
spec
    ensures r == view_enables(self, other)
proof start
    proof { A::law_ord(); }
@*/
pub open spec fn printed<S: Scope, A: Ability>(v: &CapabilityView<S, A>, c: &Capability) -> bool { c.resource@ == res_str(&v.resource) && c.ability@ == v.ability.s_str() && c.caveat == v.caveat }
/*@impl impl<'a, S: Scope, A: Ability> VFrom<&'a CapabilityView<S, A>> for Capability@*/
    open spec fn s_from(t: &'a CapabilityView<S, A>, r: Capability) -> bool { printed(t, &r) }
/*@fn <Capability as From<&CapabilityView<S,A>>>::from
params
    value: &'a CapabilityView<S, A>
@*/
/*@endimpl@*/
/*@impl impl<S: Scope, A: Ability> VFrom<CapabilityView<S, A>> for Capability@*/
    open spec fn s_from(t: CapabilityView<S, A>, r: Capability) -> bool { printed(&t, &r) }
/*@fn <Capability as From<CapabilityView<S,A>>>::from
@*/
/*@endimpl@*/

/// the parts of a resource's text after `as:`
pub open spec fn did_of(t: Seq<char>) -> Option<(String, String)> {
    let p = split(t, ':');
    if p.len() >= 3 && p[0] == "did"@ && p[1] == "key"@ { Some((mk_str("did:key:"@ + p[2]), mk_str(join(p.subrange(3, p.len() as int), ":"@)))) } else { None }
}
pub open spec fn uri_of<S: Scope>(scope: Option<S>, u: Url) -> Option<ResourceUri<S>> {
    if u.s_path() == "*"@ { Some(ResourceUri::Unscoped) } else { match scope { Some(s) => Some(ResourceUri::Scoped(s)), None => None } }
}
pub open spec fn cav_of(c: Option<&Value>) -> Value { match c { Some(v) => *v, None => s_json_empty() } }
pub open spec fn kind_of<S: Scope>(res: spec_fn(Url) -> Option<ResourceUri<S>>, t: Seq<char>) -> Option<ResourceUri<S>> {
    if t == "*"@ { Some(ResourceUri::Unscoped) } else { match url_parse(t) { Some(u) => res(u), None => None } }
}
/// how a resource is read, given how DIDs are cut off and how URLs denote resources
pub open spec fn resource_of<S: Scope>(did: spec_fn(Seq<char>) -> Option<(String, String)>, res: spec_fn(Url) -> Option<ResourceUri<S>>, t: Seq<char>) -> Option<Resource<S>> {
    match url_parse(t) {
        None => None,
        Some(u) => if u.s_scheme() == "my"@ { match res(u) { Some(k) => Some(Resource::My { kind: k }), None => None } }
            else if u.s_scheme() == "as"@ {
                match did(u.s_str().subrange(3, u.s_str().len() as int)) {
                    None => None,
                    Some((d, rest)) => match kind_of(res, rest@) { Some(k) => Some(Resource::As { did: d, kind: k }), None => None },
                }
            } else { match res(u) { Some(k) => Some(Resource::Resource { kind: k }), None => None } },
    }
}
pub open spec fn view_of<S: Scope, A: Ability>(r: Option<Resource<S>>, a: Option<A>, c: Value) -> Option<CapabilityView<S, A>> {
    match (r, a) { (Some(r), Some(a)) => Some(mk_view(r, a, c)), _ => None }
}
/// a semantics: parsing is a function of its input
pub trait CapabilitySemantics<S: Scope, A: Ability> {
    spec fn s_scope(&self, u: Url) -> Option<S>;
    spec fn s_action(&self, t: Seq<char>) -> Option<A>;
    spec fn s_did(&self, t: Seq<char>) -> Option<(String, String)>;
    spec fn s_uri(&self, u: Url) -> Option<ResourceUri<S>>;
    spec fn s_cav(&self, c: Option<&Value>) -> Value;
    spec fn s_parse(&self, r: Seq<char>, a: Seq<char>, c: Option<&Value>) -> Option<CapabilityView<S, A>>;
    spec fn s_view(&self, c: Capability) -> Option<CapabilityView<S, A>>;
    fn parse_scope(&self, scope: &Url) -> (r: Option<S>) ensures r == self.s_scope(*scope);
    fn parse_action(&self, ability: &str) -> (r: Option<A>) ensures r == self.s_action(ability@);
    fn extract_did(&self, path: &str) -> (r: Option<(String, String)>) ensures r == self.s_did(path@);
    fn parse_resource(&self, resource: &Url) -> (r: Option<ResourceUri<S>>) ensures r == self.s_uri(*resource);
    fn parse_caveat(&self, caveat: Option<&Value>) -> (r: Value) ensures r == self.s_cav(caveat);
    fn parse(&self, resource: &str, ability: &str, caveat: Option<&Value>) -> (r: Option<CapabilityView<S, A>>) ensures r == self.s_parse(resource@, ability@, caveat);
    fn parse_capability(&self, value: &Capability) -> (r: Option<CapabilityView<S, A>>) ensures r == self.s_view(*value);
}
/// any semantics that overrides nothing
#[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(A)]
pub struct DefaultSemantics<S, A> { s: std::marker::PhantomData<S>, a: std::marker::PhantomData<A> }
/*@impl impl<S: Scope, A: Ability> CapabilitySemantics<S, A> for DefaultSemantics<S, A>@*/
    open spec fn s_scope(&self, u: Url) -> Option<S> { S::s_of(u) }
    open spec fn s_action(&self, t: Seq<char>) -> Option<A> { A::s_of(t) }
    open spec fn s_did(&self, t: Seq<char>) -> Option<(String, String)> { did_of(t) }
    open spec fn s_uri(&self, u: Url) -> Option<ResourceUri<S>> { uri_of(S::s_of(u), u) }
    open spec fn s_cav(&self, c: Option<&Value>) -> Value { cav_of(c) }
    open spec fn s_parse(&self, r: Seq<char>, a: Seq<char>, c: Option<&Value>) -> Option<CapabilityView<S, A>> { view_of(resource_of(|t: Seq<char>| did_of(t), |u: Url| uri_of(S::s_of(u), u), r), A::s_of(a), cav_of(c)) }
    open spec fn s_view(&self, c: Capability) -> Option<CapabilityView<S, A>> { view_of(resource_of(|t: Seq<char>| did_of(t), |u: Url| uri_of(S::s_of(u), u), c.resource@), A::s_of(c.ability@), c.caveat) }
/*@fn CapabilitySemantics::parse_scope
proof start
    S::law_try();
@*/
/*@fn CapabilitySemantics::parse_action
proof start
    A::law_try();
@*/
/*@fn CapabilitySemantics::extract_did
proof ret
    let ghost p = split(path@, ':');
    proof { assert(path_parts.seq().subrange(3, path_parts.seq().len() as int).map(|i: int, x: &str| x@) =~= p.subrange(3, p.len() as int)); }
@*/
/*@fn CapabilitySemantics::parse_resource
@*/
/*@fn CapabilitySemantics::parse_caveat
@*/
/*@fn CapabilitySemantics::parse
proof start
    assert("as"@ + seq![':'] =~= "as:"@);
@*/
/*@fn CapabilitySemantics::parse_capability
@*/
/*@endimpl@*/

// ---------- the redelegation semantics ----------
/*@type ProofAction@*/
/*@type ProofSelection@*/
impl VOrd<ProofAction> for ProofAction {
    open spec fn s_le(&self, o: &ProofAction) -> bool { true } open spec fn s_lt(&self, o: &ProofAction) -> bool { false }
    open spec fn s_ge(&self, o: &ProofAction) -> bool { true } open spec fn s_gt(&self, o: &ProofAction) -> bool { false }
    #[verifier::external_body] fn v_le(&self, o: &ProofAction) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn v_lt(&self, o: &ProofAction) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ge(&self, o: &ProofAction) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn v_gt(&self, o: &ProofAction) -> (r: bool) { unimplemented!() }
}
pub open spec fn action_of(t: Seq<char>) -> Option<ProofAction> { if t == "ucan/DELEGATE"@ { Some(ProofAction::Delegate) } else { None } }
/// `*`, or a decimal index
pub open spec fn select_of(t: Seq<char>) -> Option<ProofSelection> {
    if t == "*"@ { Some(ProofSelection::All) } else { match parse_dec(t) { Some(n) => if 0 <= n <= usize::MAX { Some(ProofSelection::Index(n as usize)) } else { None }, None => None } }
}
/// a selection is the complete text after `prf:`
pub open spec fn prf_of(u: Url) -> Option<ProofSelection> { if is_prefix("prf:"@, u.s_str()) { select_of(u.s_str().subrange(4, u.s_str().len() as int)) } else { None } }
/*@impl impl VTryFrom<String> for ProofAction@*/
    open spec fn s_try_from(t: String, r: Result<ProofAction, Error>) -> bool { match action_of(t@) { Some(a) => r == Ok::<ProofAction, Error>(a), None => r is Err } }
/*@fn <ProofAction as TryFrom<String>>::try_from
@*/
/*@endimpl@*/
/*@impl impl VToString for ProofAction@*/
    open spec fn s_str(&self) -> Seq<char> { "ucan/DELEGATE"@ }
/*@fn <ProofAction as ToString>::to_string
@*/
/*@endimpl@*/
impl Ability for ProofAction {
    open spec fn s_of(t: Seq<char>) -> Option<ProofAction> { action_of(t) }
    proof fn law_try() { }
    proof fn law_ord() { }
}
/*@impl impl VTryFrom<String> for ProofSelection@*/
    open spec fn s_try_from(t: String, r: Result<ProofSelection, Error>) -> bool { match select_of(t@) { Some(a) => r == Ok::<ProofSelection, Error>(a), None => r is Err } }
/*@fn <ProofSelection as TryFrom<String>>::try_from
@*/
/*@endimpl@*/
/*@impl impl VTryFrom<Url> for ProofSelection@*/
    open spec fn s_try_from(t: Url, r: Result<ProofSelection, Error>) -> bool { match prf_of(t) { Some(a) => r == Ok::<ProofSelection, Error>(a), None => r is Err } }
/*@fn <ProofSelection as TryFrom<Url>>::try_from
@*/
/*@endimpl@*/
/*@impl impl VToString for ProofSelection@*/
    open spec fn s_str(&self) -> Seq<char> { match *self { ProofSelection::Index(n) => "prf:"@ + dec(n as int), ProofSelection::All => "prf:*"@ } }
/*@fn <ProofSelection as ToString>::to_string
@*/
/*@endimpl@*/
/*@impl impl Scope for ProofSelection@*/
    open spec fn s_of(u: Url) -> Option<ProofSelection> { prf_of(u) }
    open spec fn s_contains(&self, other: &ProofSelection) -> bool { *self == *other || *self is All }
    proof fn law_try() { }
/*@fn <ProofSelection as Scope>::contains
@*/
/*@endimpl@*/
/*@type ProofDelegationSemantics@*/
pub open spec fn p_uri(u: Url) -> Option<ResourceUri<ProofSelection>> { match prf_of(u) { Some(s) => Some(ResourceUri::Scoped(s)), None => None } }
#[verifier::opaque]
pub open spec fn p_view(r: Seq<char>, a: Seq<char>, c: Value) -> Option<CapabilityView<ProofSelection, ProofAction>> { view_of(resource_of(|t: Seq<char>| did_of(t), |u: Url| p_uri(u), r), action_of(a), c) }
// the parameters of the trait's default methods, at this implementation
pub type S = ProofSelection;
pub type A = ProofAction;
/*@impl impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics@*/
    open spec fn s_scope(&self, u: Url) -> Option<ProofSelection> { prf_of(u) }
    open spec fn s_action(&self, t: Seq<char>) -> Option<ProofAction> { action_of(t) }
    open spec fn s_did(&self, t: Seq<char>) -> Option<(String, String)> { did_of(t) }
    open spec fn s_uri(&self, u: Url) -> Option<ResourceUri<ProofSelection>> { p_uri(u) }
    open spec fn s_cav(&self, c: Option<&Value>) -> Value { cav_of(c) }
    open spec fn s_parse(&self, r: Seq<char>, a: Seq<char>, c: Option<&Value>) -> Option<CapabilityView<ProofSelection, ProofAction>> { p_view(r, a, cav_of(c)) }
    open spec fn s_view(&self, c: Capability) -> Option<CapabilityView<ProofSelection, ProofAction>> { p_view(c.resource@, c.ability@, c.caveat) }
/*@fn <ProofDelegationSemantics as CapabilitySemantics<ProofSelection,ProofAction>>::parse_scope | CapabilitySemantics::parse_scope
proof start
    ProofSelection::law_try();
@*/
/*@fn <ProofDelegationSemantics as CapabilitySemantics<ProofSelection,ProofAction>>::parse_action | CapabilitySemantics::parse_action
proof start
    ProofAction::law_try();
@*/
/*@fn <ProofDelegationSemantics as CapabilitySemantics<ProofSelection,ProofAction>>::extract_did | CapabilitySemantics::extract_did
proof ret
    let ghost p = split(path@, ':');
    proof { assert(path_parts.seq().subrange(3, path_parts.seq().len() as int).map(|i: int, x: &str| x@) =~= p.subrange(3, p.len() as int)); }
@*/
/*@fn <ProofDelegationSemantics as CapabilitySemantics<ProofSelection,ProofAction>>::parse_resource | CapabilitySemantics::parse_resource
@*/
/*@fn <ProofDelegationSemantics as CapabilitySemantics<ProofSelection,ProofAction>>::parse_caveat | CapabilitySemantics::parse_caveat
@*/
/*@fn <ProofDelegationSemantics as CapabilitySemantics<ProofSelection,ProofAction>>::parse | CapabilitySemantics::parse
proof start
    reveal(p_view);
    assert("as"@ + seq![':'] =~= "as:"@);
@*/
/*@fn <ProofDelegationSemantics as CapabilitySemantics<ProofSelection,ProofAction>>::parse_capability | CapabilitySemantics::parse_capability
@*/
/*@endimpl@*/

// ---------- C05, C09, C12 ----------
/// containment needs the same kind and DID, and a scope never contains the unscoped
pub proof fn p_c09_kinds<S: Scope, A: Ability>(a: &CapabilityView<S, A>, b: &CapabilityView<S, A>) requires view_enables(a, b)
    ensures match (a.resource, b.resource) {
        (Resource::Resource { kind: x }, Resource::Resource { kind: y }) => x is Unscoped || (y is Scoped && x->0.s_contains(&y->0)),
        (Resource::My { kind: x }, Resource::My { kind: y }) => x is Unscoped || (y is Scoped && x->0.s_contains(&y->0)),
        (Resource::As { did: d, kind: x }, Resource::As { did: e, kind: y }) => d == e && (x is Unscoped || (y is Scoped && x->0.s_contains(&y->0))),
        _ => false }, a.ability.s_ge(&b.ability), a.caveat is Object && b.caveat is Object, cav_sub(a.caveat->Object_0@, b.caveat->Object_0@)
{ }
/// the DID and the remaining resource are, together, the complete text
#[verifier::spinoff_prover]
pub proof fn p_c12_did(t: Seq<char>) ensures match did_of(t) { Some((d, rest)) => is_prefix("did:key:"@, d@) && !d@.subrange(8, d@.len() as int).contains(':') && (t == d@ + ":"@ + rest@ || (t == d@ && rest@.len() == 0)), None => true }
{
    reveal_strlit("did:key:"); reveal_strlit("did"); reveal_strlit("key"); reveal_strlit(":");
    let s = seq![':']; let p = split(t, ':');
    if did_of(t) is Some {
        lem_split3(t, ':');
        assert(":"@ =~= s); let d = "did:key:"@ + p[2];
        assert("did"@ + s + ("key"@ + s + p[2]) =~= d);
        assert(d.subrange(0, 8) =~= "did:key:"@);
        assert(d.subrange(8, d.len() as int) =~= p[2]);
        if p.len() == 3 { assert(p.subrange(3, 3) =~= Seq::empty()); }
        else { let r = join(p.subrange(3, p.len() as int), s); assert("did"@ + s + ("key"@ + s + (p[2] + s + r)) =~= d + s + r); }
    }
}
/// and a did:key followed by a resource is cut exactly there
pub proof fn p_c12_cut(x: Seq<char>, rest: Seq<char>) requires !x.contains(':') ensures match did_of("did:key:"@ + x + ":"@ + rest) { Some((d, r)) => d@ == "did:key:"@ + x && r@ == rest, None => false }
{
    reveal_strlit("did:key:"); reveal_strlit("did"); reveal_strlit("key"); reveal_strlit(":");
    let c = ':'; let s = seq![c]; let t = "did:key:"@ + x + ":"@ + rest;
    assert(":"@ =~= s);
    assert(t =~= "did"@ + s + ("key"@ + s + (x + s + rest)));
    lem_split_cons("did"@, c, "key"@ + s + (x + s + rest)); lem_split_cons("key"@, c, x + s + rest); lem_split_cons(x, c, rest); lem_join_split(rest, c);
    let p = split(t, c); lem_split_len(rest, c);
    assert(p.subrange(3, p.len() as int) =~= split(rest, c));
}
/// a scope whose text reads back as that scope, on its own
pub open spec fn faithful<S: Scope>(s: S, t: Seq<char>) -> bool { match url_parse(t) { Some(u) => u.s_path() != "*"@ && S::s_of(u) == Some(s), None => false } }
pub open spec fn scheme_is(t: Seq<char>, sch: Seq<char>) -> bool { match url_parse(t) { Some(u) => u.s_scheme() == sch, None => false } }
/// a resource whose scope prints and parses faithfully, in its place
pub open spec fn printable<S: Scope>(r: Resource<S>) -> bool {
    match r {
        Resource::Resource { kind: ResourceUri::Scoped(s) } => faithful(s, s.s_str()) && !scheme_is(s.s_str(), "my"@) && !scheme_is(s.s_str(), "as"@),
        Resource::Resource { kind: ResourceUri::Unscoped } => false,
        Resource::My { kind: ResourceUri::Scoped(s) } => faithful(s, "my:"@ + s.s_str()) && scheme_is("my:"@ + s.s_str(), "my"@),
        Resource::My { kind: ResourceUri::Unscoped } => true,
        Resource::As { did, kind } => (exists|x: Seq<char>| did@ == "did:key:"@ + x && !#[trigger] x.contains(':')) && kept("as:"@ + did@ + ":"@ + uri_str(&kind)) && (match kind { ResourceUri::Scoped(s) => s.s_str() != "*"@ && faithful(s, s.s_str()), ResourceUri::Unscoped => true }),
    }
}
/// an as: URL the parser keeps as it is
pub open spec fn kept(t: Seq<char>) -> bool { match url_parse(t) { Some(u) => u.s_str() == t && u.s_scheme() == "as"@, None => false } }
/// printing gives text that parses to the same capability
#[verifier::spinoff_prover]
pub proof fn p_c12_print<S: Scope, A: Ability>(v: CapabilityView<S, A>, sem: &DefaultSemantics<S, A>, c: &Capability)
    requires printed(&v, c), printable(v.resource), A::s_of(v.ability.s_str()) == Some(v.ability)
    ensures sem.s_view(*c) == Some(v)
{
    reveal_strlit("as:"); reveal_strlit(":"); reveal_strlit("my:"); reveal_strlit("my"); reveal_strlit("as"); reveal_strlit("*"); reveal_strlit("my:*");
    match v.resource {
        Resource::My { kind: ResourceUri::Unscoped } => { axiom_url_my_all(); assert("my:"@ + "*"@ =~= "my:*"@); }
        Resource::As { did, kind } => {
            let x = choose|x: Seq<char>| did@ == "did:key:"@ + x && !#[trigger] x.contains(':');
            let rest = uri_str(&kind); let t = "as:"@ + did@ + ":"@ + rest;
            p_c12_cut(x, rest);
            assert(t.subrange(3, t.len() as int) =~= "did:key:"@ + x + ":"@ + rest);
            assert("as"@[0] != "my"@[0]);
            match did_of(t.subrange(3, t.len() as int)) { Some((d, r)) => { assert(d == did); assert(r@ == rest); }, None => { } }
        }
        _ => { }
    }
}
/// a redelegation claim is `ucan/DELEGATE` on `prf:N` or `prf:*`, and nothing else
pub open spec fn redel_of(c: Capability) -> Option<ProofSelection> {
    match p_view(c.resource@, c.ability@, c.caveat) { Some(v) => match v.resource { Resource::Resource { kind: ResourceUri::Scoped(s) } => Some(s), _ => None }, None => None }
}
#[verifier::spinoff_prover]
pub proof fn p_c05_claims(c: Capability)
    ensures redel_of(c) is Some ==> c.ability@ == "ucan/DELEGATE"@ && url_parse(c.resource@) is Some && is_prefix("prf:"@, url_parse(c.resource@)->0.s_str()) && select_of(url_parse(c.resource@)->0.s_str().subrange(4, url_parse(c.resource@)->0.s_str().len() as int)) == redel_of(c),
        c.resource@ == "prf:*"@ && c.ability@ == "ucan/DELEGATE"@ ==> redel_of(c) == Some(ProofSelection::All),
        forall|n: usize| c.resource@ == "prf:"@ + #[trigger] dec(n as int) && c.ability@ == "ucan/DELEGATE"@ ==> redel_of(c) == Some(ProofSelection::Index(n)),
{
    reveal(p_view);
    reveal_strlit("prf:"); reveal_strlit("prf:*"); reveal_strlit("*"); reveal_strlit("my"); reveal_strlit("as"); reveal_strlit("prf");
    axiom_url_prf_all();
    assert("prf"@ != "my"@ && "prf"@ != "as"@) by { assert("prf"@.len() == 3); }
    assert("prf:*"@.subrange(0, 4) =~= "prf:"@); assert("prf:*"@.subrange(4, 5) =~= "*"@);
    assert forall|n: usize| c.resource@ == "prf:"@ + #[trigger] dec(n as int) && c.ability@ == "ucan/DELEGATE"@ implies redel_of(c) == Some(ProofSelection::Index(n)) by {
        let t = "prf:"@ + dec(n as int); assert(t.subrange(0, 4) =~= "prf:"@); assert(t.subrange(4, t.len() as int) =~= dec(n as int));
        axiom_dec(n as int); axiom_url_prf(n as int);
    }
}

// =====================================================================================
// Keys and DIDs
// =====================================================================================
pub trait VBoxRef { type T: ?Sized; spec fn s_ref(&self, r: &Self::T) -> bool; fn v_as_ref(&self) -> (r: &Self::T) ensures self.s_ref(r); }
impl VBoxRef for Box<dyn KeyMaterial> { type T = dyn KeyMaterial; open spec fn s_ref(&self, r: &dyn KeyMaterial) -> bool { r.s_alg() == (**self).s_alg() && r.s_did() == (**self).s_did() && (forall|p: Seq<u8>, x: Result<Vec<u8>, Error>| r.s_signs(p, x) == (**self).s_signs(p, x)) && (forall|p: Seq<u8>, x: Seq<u8>| r.s_verifies(p, x) == (**self).s_verifies(p, x)) } #[verifier::external_body] fn v_as_ref(&self) -> (r: &(dyn KeyMaterial + 'static)) { unimplemented!() } }
pub trait KeyMaterial {
    spec fn s_alg(&self) -> Seq<char>;
    spec fn s_did(&self) -> Option<Seq<char>>;
    spec fn s_signs(&self, payload: Seq<u8>, r: Result<Vec<u8>, Error>) -> bool;
    spec fn s_verifies(&self, payload: Seq<u8>, sig: Seq<u8>) -> bool;
    fn get_jwt_algorithm_name(&self) -> (r: String) ensures r@ == self.s_alg();
    fn get_did(&self) -> (r: Result<String, Error>) ensures match self.s_did() { Some(d) => r is Ok && r->Ok_0@ == d, None => r is Err };
    fn sign(&self, payload: &[u8]) -> (r: Result<Vec<u8>, Error>) ensures self.s_signs(payload@, r);
    fn verify(&self, payload: &[u8], signature: &[u8]) -> (r: Result<(), Error>) ensures r is Ok <==> self.s_verifies(payload@, signature@);
}
/*@impl impl KeyMaterial for Box<dyn KeyMaterial>@*/
    open spec fn s_alg(&self) -> Seq<char> { (**self).s_alg() }
    open spec fn s_did(&self) -> Option<Seq<char>> { (**self).s_did() }
    open spec fn s_signs(&self, payload: Seq<u8>, r: Result<Vec<u8>, Error>) -> bool { (**self).s_signs(payload, r) }
    open spec fn s_verifies(&self, payload: Seq<u8>, sig: Seq<u8>) -> bool { (**self).s_verifies(payload, sig) }
/*@fn <Box<dyn KeyMaterial> as KeyMaterial>::get_jwt_algorithm_name
@*/
/*@fn <Box<dyn KeyMaterial> as KeyMaterial>::get_did
@*/
/*@fn <Box<dyn KeyMaterial> as KeyMaterial>::sign
@*/
/*@fn <Box<dyn KeyMaterial> as KeyMaterial>::verify
@*/
/*@endimpl@*/
/*@impl impl<K: KeyMaterial> KeyMaterial for Arc<K>@*/
    open spec fn s_alg(&self) -> Seq<char> { (**self).s_alg() }
    open spec fn s_did(&self) -> Option<Seq<char>> { (**self).s_did() }
    open spec fn s_signs(&self, payload: Seq<u8>, r: Result<Vec<u8>, Error>) -> bool { (**self).s_signs(payload, r) }
    open spec fn s_verifies(&self, payload: Seq<u8>, sig: Seq<u8>) -> bool { (**self).s_verifies(payload, sig) }
/*@fn <Arc<K> as KeyMaterial>::get_jwt_algorithm_name
@*/
/*@fn <Arc<K> as KeyMaterial>::get_did
@*/
/*@fn <Arc<K> as KeyMaterial>::sign
@*/
/*@fn <Arc<K> as KeyMaterial>::verify
@*/
/*@endimpl@*/

/// a key constructor: a pure function from the bytes after the type prefix
#[verifier::external_body] #[derive(Clone, Copy)] pub struct VFnPtr { }
impl VClone for VFnPtr { fn v_clone(&self) -> (r: VFnPtr) { *self } }
impl VFnPtr {
    pub uninterp spec fn s_call(&self, b: Seq<u8>) -> Option<Box<dyn KeyMaterial>>;
    #[verifier::external_body] pub fn call(&self, b: Vec<u8>) -> (r: Result<Box<dyn KeyMaterial>, Error>) ensures match self.s_call(b@) { Some(k) => r == Ok::<Box<dyn KeyMaterial>, Error>(k), None => r is Err } { unimplemented!() }
}
pub type DidPrefix = &'static [u8];
pub type BytesToKey = VFnPtr;
pub type KeyConstructors = VMap<DidPrefix, BytesToKey>;
pub type KeyConstructorSlice = [(DidPrefix, BytesToKey)];
pub type KeyCache = VMap<String, Arc<Box<dyn KeyMaterial>>>;
/*@const DID_PREFIX@*/
/*@const DID_KEY_PREFIX@*/
/*@type DidParser@*/
/// the key a DID denotes under the registered constructors
pub open spec fn resolve(ctors: Map<Seq<u8>, VFnPtr>, did: Seq<char>) -> Option<Box<dyn KeyMaterial>> {
    if !is_prefix("did:key:z"@, did) { None } else {
        match b58_dec(utf8(did.subrange(9, did.len() as int))) {
            None => None,
            Some(b) => if b.len() < 2 || !ctors.contains_key(b.subrange(0, 2)) { None } else { ctors[b.subrange(0, 2)].s_call(b.subrange(2, b.len() as int)) },
        }
    }
}
impl DidParser {
    pub open spec fn ctors(&self) -> Map<Seq<u8>, VFnPtr> { self.key_constructors@ }
    /// every cached key is the one its DID denotes
    pub open spec fn wf(&self) -> bool { forall|d: Seq<char>| #[trigger] self.key_cache@.contains_key(d) ==> resolve(self.ctors(), d) == Some(*self.key_cache@[d]) }
}
pub open spec fn last_ctor(s: Seq<(DidPrefix, VFnPtr)>, m: Map<Seq<u8>, VFnPtr>) -> Map<Seq<u8>, VFnPtr> decreases s.len() { if s.len() == 0 { m } else { last_ctor(s.drop_last(), m).insert(s.last().0@, s.last().1) } }

pub proof fn lem_last_ctor(s: Seq<(DidPrefix, VFnPtr)>) ensures map_of(s) == last_ctor(s, Map::<Seq<u8>, VFnPtr>::empty()) decreases s.len() { if s.len() > 0 { lem_last_ctor(s.drop_last()); } }
/*@fn DidParser::new
proof start
    lem_last_ctor(key_constructor_slice@);
spec
    ensures r.wf(), r.ctors() == last_ctor(key_constructor_slice@, Map::<Seq<u8>, VFnPtr>::empty())
loop 0 inv
    key_constructors@ == last_ctor(key_constructor_slice@.subrange(0, __it0.pos()), Map::<Seq<u8>, VFnPtr>::empty())
@*/
/*@fn DidParser::parse
spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).ctors() == old(self).ctors(),
        match r { Ok(k) => resolve(old(self).ctors(), did@) == Some(*k), Err(_) => resolve(old(self).ctors(), did@) is None }
@*/

// =====================================================================================
// Tokens
// =====================================================================================
/*@type UcanHeader@*/
/*@type UcanPayload@*/
/*@type Ucan@*/
/*@const UCAN_VERSION@*/

/// "expired" at the validation time: the given time, or a reading of the clock
pub open spec fn expired_at(exp: Option<u64>, now_time: Option<u64>, r: bool) -> bool {
    match exp { None => !r, Some(e) => match now_time { Some(t) => r == (e < t), None => exists|t: u64| clock_secs(t) && r == (e < t) } }
}
pub open spec fn early_at(nbf: Option<u64>, now_time: Option<u64>, r: bool) -> bool {
    match nbf { None => !r, Some(n) => match now_time { Some(t) => r == (n > t), None => exists|t: u64| clock_secs(t) && r == (n > t) } }
}
/// the key denoted by the issuer accepts the signature over the signed data
pub open spec fn sig_ok(ctors: Map<Seq<u8>, VFnPtr>, u: &Ucan) -> bool {
    match resolve(ctors, u.payload.iss@) { Some(k) => k.s_verifies(u.signed_data@, u.signature@), None => false }
}
/// accepted: inside its window at the validation time, and signed by its issuer
pub open spec fn accepted(ctors: Map<Seq<u8>, VFnPtr>, u: &Ucan, now_time: Option<u64>) -> bool {
    expired_at(u.payload.exp, now_time, false) && early_at(u.payload.nbf, now_time, false) && sig_ok(ctors, u)
}
/// the window of `p` contains the window of `u`
pub open spec fn begins_before(p: &Ucan, u: &Ucan) -> bool { match p.payload.nbf { None => true, Some(a) => match u.payload.nbf { None => false, Some(b) => a <= b } } }
pub open spec fn ends_after(p: &Ucan, u: &Ucan) -> bool { match p.payload.exp { None => true, Some(a) => match u.payload.exp { None => false, Some(b) => a >= b } } }
/// `p` is a proof that `u` may rely on
pub open spec fn link_ok(p: &Ucan, u: &Ucan) -> bool { p.payload.aud@ == u.payload.iss@ && begins_before(p, u) && ends_after(p, u) }

/*@fn now
spec
    ensures clock_secs(r)
@*/
/*@fn Ucan::new
spec
    ensures r.header == header, r.payload == payload, r.signed_data == signed_data, r.signature == signature
@*/
/*@fn Ucan::is_expired
spec
    ensures expired_at(self.payload.exp, now_time, r)
@*/
/*@fn Ucan::is_too_early_at
spec
    ensures early_at(self.payload.nbf, now_time, r)
@*/
/*@fn Ucan::is_too_early
spec
    ensures early_at(self.payload.nbf, None, r)
@*/
/*@fn Ucan::check_signature
spec
    requires old(did_parser).wf()
    ensures final(did_parser).wf(), final(did_parser).ctors() == old(did_parser).ctors(), r is Ok <==> sig_ok(old(did_parser).ctors(), self)
@*/
/*@fn Ucan::validate
spec
    requires old(did_parser).wf()
    ensures final(did_parser).wf(), final(did_parser).ctors() == old(did_parser).ctors(),
        r is Ok ==> accepted(old(did_parser).ctors(), self, now_time),
        r is Err ==> expired_at(self.payload.exp, now_time, true) || early_at(self.payload.nbf, now_time, true) || !sig_ok(old(did_parser).ctors(), self)
@*/
/*@fn Ucan::lifetime_begins_before
spec
    ensures r == begins_before(self, other)
@*/
/*@fn Ucan::lifetime_ends_after
spec
    ensures r == ends_after(self, other)
@*/
/*@fn Ucan::lifetime_encompasses
spec
    ensures r == (begins_before(self, other) && ends_after(self, other))
@*/
/*@fn Ucan::signed_data
spec
    ensures r@ == self.signed_data@
@*/
/*@fn Ucan::signature
spec
    ensures r@ == self.signature@
@*/
/*@fn Ucan::algorithm
spec
    ensures r@ == self.header.alg@
@*/
/*@fn Ucan::issuer
spec
    ensures r@ == self.payload.iss@
@*/
/*@fn Ucan::audience
spec
    ensures r@ == self.payload.aud@
@*/
/*@fn Ucan::proofs
spec
    ensures *r == self.payload.prf
@*/
/*@fn Ucan::expires_at
spec
    ensures *r == self.payload.exp
@*/
/*@fn Ucan::not_before
spec
    ensures *r == self.payload.nbf
@*/
/*@fn Ucan::nonce
spec
    ensures *r == self.payload.nnc
@*/
/*@fn Ucan::capabilities
spec
    ensures *r == self.payload.cap
@*/
/*@fn Ucan::facts
spec
    ensures *r == self.payload.fct
@*/
/*@fn Ucan::version
spec
    ensures r@ == self.payload.ucv@
@*/
// ---------- text form ----------
pub trait DagJson: Sized {
    fn to_dag_json(&self) -> (r: Result<Vec<u8>, Error>) ensures match dj_enc(self) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err };
    fn from_dag_json(json_bytes: &[u8]) -> (r: Result<Self, Error>) ensures match dj_dec::<Self>(json_bytes@) { Some(t) => r == Ok::<Self, Error>(t), None => r is Err };
}
/*@impl impl<T> DagJson for T@*/
/*@fn DagJson::to_dag_json
@*/
/*@fn DagJson::from_dag_json
@*/
/*@endimpl@*/
pub open spec fn b64_of<T: ?Sized>(t: &T) -> Option<Seq<char>> { match dj_enc(t) { Some(b) => Some(b64_enc(0, b)), None => None } }
pub trait Base64Encode: Sized {
    fn jwt_base64_encode(&self) -> (r: Result<String, Error>) ensures match b64_of(self) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err };
}
/*@impl impl<T> Base64Encode for T@*/
/*@fn Base64Encode::jwt_base64_encode
@*/
/*@endimpl@*/
pub open spec fn b64_part(p: Seq<char>) -> Option<Seq<u8>> { b64_dec(0, utf8(p)) }
pub open spec fn json_part<T>(p: Seq<char>) -> Option<T> { match b64_part(p) { Some(b) => dj_dec::<T>(b), None => None } }
/// a text that is a token
pub open spec fn is_token(t: Seq<char>) -> bool {
    let p = split(t, '.'); p.len() == 3 && json_part::<UcanHeader>(p[0]) is Some && json_part::<UcanPayload>(p[1]) is Some && b64_part(p[2]) is Some
}
/// a text that is this token
pub open spec fn token_is(t: Seq<char>, u: &Ucan) -> bool {
    let p = split(t, '.');
    is_token(t) && json_part::<UcanHeader>(p[0]) == Some(u.header) && json_part::<UcanPayload>(p[1]) == Some(u.payload) && b64_part(p[2]) == Some(u.signature@) && u.signed_data@ == utf8(p[0] + "."@ + p[1])
}
pub open spec fn parsed(t: Seq<char>, r: Result<Ucan, Error>) -> bool { match r { Ok(u) => token_is(t, &u), Err(_) => !is_token(t) } }
/// the text of a token
pub open spec fn token_text(u: &Ucan) -> Option<Seq<char>> { match utf8_text(u.signed_data@) { Some(s) => Some(s + "."@ + b64_enc(0, u.signature@)), None => None } }
/// the first n parts of a token, joined again
pub open spec fn head_text(p: Seq<Seq<char>>, n: int, o: Option<String>) -> bool { if n == 0 { o is None } else if n == 1 { o is Some && o->Some_0@ == p[0] } else { n == 2 && o is Some && o->Some_0@ == p[0] + "."@ + p[1] } }
/// the first n parts of a token, decoded
pub open spec fn decoded(p: Seq<Seq<char>>, n: int, o: Seq<Result<Vec<u8>, Error>>) -> bool {
    o.len() == n && forall|j: int| 0 <= j < n ==> match b64_part(#[trigger] p[j]) { Some(b) => o[j] is Ok && o[j]->Ok_0@ == b, None => o[j] is Err }
}
/*@impl impl VFromStr for Ucan@*/
    open spec fn s_from_str(s: Seq<char>, r: Result<Ucan, Error>) -> bool { parsed(s, r) }
/*@fn <Ucan as FromStr>::from_str
attr
    #[verifier::spinoff_prover]
loop 0 inv
    __s0.len() <= 2, head_text(views(__s0), __it0.pos(), __out0)
loop 1 inv
    decoded(views(__s1), __it1.pos(), __out1@)
proof start
    let ghost p = split(ucan_token@, '.');
    proof { lem_split_len(ucan_token@, '.'); }
proof loop 0 pre
    assert(__s0.len() >= 1 && __s0[0]@ == p[0]);
    assert(__s0.len() == 2 ==> __s0[1]@ == p[1]);
@*/
/*@endimpl@*/
/*@impl impl<'a> VTryFrom<&'a str> for Ucan@*/
    open spec fn s_try_from(t: &'a str, r: Result<Ucan, Error>) -> bool { parsed(t@, r) }
/*@fn <Ucan as TryFrom<&str>>::try_from
params
    ucan_token: &'a str
@*/
/*@endimpl@*/
/*@impl impl VTryFrom<String> for Ucan@*/
    open spec fn s_try_from(t: String, r: Result<Ucan, Error>) -> bool { parsed(t@, r) }
/*@fn <Ucan as TryFrom<String>>::try_from
@*/
/*@endimpl@*/
/*@fn Ucan::encode
spec
    ensures match token_text(self) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
proof start
    reveal_strlit("."); assert("."@ =~= seq!['.']);
@*/
/*@fn Ucan::attenuation
spec
    ensures *r == self.payload.cap
@*/
/*@fn Ucan::to_cid
spec
    ensures match token_text(self) { Some(t) => r == Ok::<Cid, Error>(cid_v1(0x55, mhash(hasher, utf8(t)))), None => r is Err }
@*/
/// what a text decodes to is determined
pub proof fn p_c14_unique(t: Seq<char>, u: &Ucan, w: &Ucan) requires token_is(t, u), token_is(t, w) ensures *u == *w { }
/// encoding a decoded token gives back the received text
pub proof fn p_c14_reencode(t: Seq<char>, u: &Ucan) requires token_is(t, u) ensures token_text(u) == Some(t)
{
    reveal_strlit(".");
    let p = split(t, '.'); lem_join_split(t, '.');
    assert("."@ =~= seq!['.']);
    let q = p.drop_last(); assert(q.drop_last() =~= seq![p[0]]); assert(join(seq![p[0]], seq!['.']) == p[0]);
    assert(join(q, seq!['.']) == p[0] + seq!['.'] + p[1]);
    assert(join(p, seq!['.']) == join(q, seq!['.']) + seq!['.'] + p[2]);
    assert(t =~= p[0] + "."@ + p[1] + "."@ + p[2]);
    axiom_b64_inv(utf8(p[2])); axiom_utf8(p[2]); axiom_utf8(b64_enc(0, u.signature@));
}
/// a token as it is signed: over the encoding of its own header and payload, which DAG-JSON carries
pub open spec fn canonical(u: &Ucan) -> bool {
    match (b64_of(&u.header), b64_of(&u.payload)) { (Some(h), Some(p)) => u.signed_data@ == utf8(h + "."@ + p), _ => false }
}
/// the derived serialisation of its header and payload reads back (derives are assumed; sampled by the harness)
pub open spec fn reads_back<T>(t: T) -> bool { match ipld_of(&t) { Some(i) => of_ipld::<T>(i) == Some(t), None => true } }
pub open spec fn carried(u: &Ucan) -> bool { reads_back(u.header) && reads_back(u.payload) }
/// decoding an encoded signed token gives back the token
pub proof fn p_c14_redecode(u: &Ucan) requires canonical(u), carried(u) ensures token_text(u) is Some, token_is(token_text(u)->0, u)
{
    reveal_strlit("."); assert("."@ =~= seq!['.']);
    let h = b64_of(&u.header)->0; let p = b64_of(&u.payload)->0; let s = b64_enc(0, u.signature@);
    axiom_b64(dj_enc(&u.header)->0); axiom_b64(dj_enc(&u.payload)->0); axiom_b64(u.signature@);
    axiom_utf8(h + "."@ + p);
    let t = token_text(u)->0;
    assert(t =~= h + seq!['.'] + (p + seq!['.'] + s));
    lem_split_cons(h, '.', p + seq!['.'] + s); lem_split_cons(p, '.', s); lem_split_cons(s, '.', Seq::empty());
}
// =====================================================================================
// Proof chains
// =====================================================================================
/// a block store: what reading a CID may return, and what a write may do
pub trait UcanStore: Sized {
    spec fn s_read<T: Decode<RawCodec>>(&self, cid: Cid, r: Result<Option<T>, Error>) -> bool;
    spec fn s_write<T: Encode<RawCodec>>(&self, t: T, r: Result<Cid, Error>, post: &Self) -> bool;
    fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> (r: Result<Option<T>, Error>) ensures self.s_read(*cid, r);
    fn write<T: Encode<RawCodec>>(&mut self, token: T) -> (r: Result<Cid, Error>) ensures old(self).s_write(token, r, final(self));
}
/// a token store: what reading a CID may return, when it may fail, and what a write may do
pub trait UcanJwtStore: Sized {
    spec fn s_token(&self, cid: Cid, t: Seq<char>) -> bool;
    spec fn s_no_token(&self, cid: Cid) -> bool;
    spec fn s_put(&self, t: Seq<char>, r: Result<Cid, Error>, post: &Self) -> bool;
    fn require_token(&self, cid: &Cid) -> (r: Result<String, Error>) ensures match r { Ok(t) => self.s_token(*cid, t@), Err(_) => self.s_no_token(*cid) };
    fn read_token(&self, cid: &Cid) -> (r: Result<Option<String>, Error>) ensures match r { Ok(Some(t)) => self.s_token(*cid, t@), Ok(None) => self.s_no_token(*cid), Err(_) => self.s_no_token(*cid) };
    fn write_token(&mut self, token: &str) -> (r: Result<Cid, Error>) ensures old(self).s_put(token@, r, final(self));
}
/// what is read is a block that is the UTF-8 text of a token
pub open spec fn token_block(r: Result<Option<Ipld>, Error>) -> Option<Seq<char>> { match r { Ok(Some(Ipld::Bytes(b))) => utf8_text(b@), _ => None } }
/*@impl impl<U: UcanStore> UcanJwtStore for U@*/
    open spec fn s_token(&self, cid: Cid, t: Seq<char>) -> bool { cid.s_codec() == 0x55 && exists|r: Result<Option<Ipld>, Error>| #[trigger] self.s_read(cid, r) && token_block(r) == Some(t) }
    open spec fn s_no_token(&self, cid: Cid) -> bool { cid.s_codec() != 0x55 || exists|r: Result<Option<Ipld>, Error>| #[trigger] self.s_read(cid, r) && token_block(r) is None }
    open spec fn s_put(&self, t: Seq<char>, r: Result<Cid, Error>, post: &Self) -> bool { exists|i: Ipld| i is Bytes && i->Bytes_0@ == utf8(t) && #[trigger] self.s_write(i, r, post) }
/*@fn UcanJwtStore::require_token
@*/
/*@fn UcanJwtStore::read_token
@*/
/*@fn UcanJwtStore::write_token
@*/
/*@endimpl@*/
/*@type ProofChain@*/
/*@type CapabilityInfo@*/
/*@const PROOF_DELEGATION_SEMANTICS@*/
/// the proofs a token with these capabilities redelegates, of n
pub open spec fn redelegates(caps: Seq<Capability>, n: int, k: int) -> bool { 0 <= k < n && exists|j: int| 0 <= j < caps.len() && (redel_of(#[trigger] caps[j]) == Some(ProofSelection::All) || redel_idx(caps[j], k)) }
pub open spec fn redel_idx(c: Capability, k: int) -> bool { match redel_of(c) { Some(ProofSelection::Index(i)) => i as int == k, _ => false } }
/// no claim names a proof that is not there
pub open spec fn redel_in(caps: Seq<Capability>, n: int) -> bool { forall|j: int| 0 <= j < caps.len() ==> match redel_of(#[trigger] caps[j]) { Some(ProofSelection::Index(k)) => k < n, _ => true } }
#[verifier::opaque]
pub open spec fn redel_ok(redel: Set<int>, caps: Seq<Capability>, n: int) -> bool { redel_in(caps, n) && forall|k: int| #[trigger] redel.contains(k) <==> redelegates(caps, n, k) }
pub proof fn lem_redel_step(r0: Set<int>, r1: Set<int>, s: Seq<Capability>, m: int, n: int)
    requires 0 <= m < s.len(), redel_ok(r0, s.subrange(0, m), n),
        match redel_of(s[m]) { None => r1 == r0, Some(ProofSelection::Index(k)) => k < n && r1 == r0.insert(k as int), Some(ProofSelection::All) => forall|k: int| #[trigger] r1.contains(k) <==> r0.contains(k) || 0 <= k < n }
    ensures redel_ok(r1, s.subrange(0, m + 1), n)
{
    reveal(redel_ok);
    let a = s.subrange(0, m); let b = s.subrange(0, m + 1);
    assert(b[m] == s[m]);
    assert forall|j: int| 0 <= j < b.len() implies match redel_of(#[trigger] b[j]) { Some(ProofSelection::Index(k)) => k < n, _ => true } by { if j < m { assert(b[j] == a[j]); } }
    assert forall|k: int| #[trigger] r1.contains(k) <==> redelegates(b, n, k) by {
        if redelegates(a, n, k) { let j = choose|j: int| 0 <= j < a.len() && (redel_of(#[trigger] a[j]) == Some(ProofSelection::All) || redel_idx(a[j], k)); assert(b[j] == a[j]); assert(redelegates(b, n, k)); }
        if redelegates(b, n, k) { let j = choose|j: int| 0 <= j < b.len() && (redel_of(#[trigger] b[j]) == Some(ProofSelection::All) || redel_idx(b[j], k)); if j < m { assert(b[j] == a[j]); assert(redelegates(a, n, k)); } }
    }
}
pub proof fn lem_redel_none(n: int) ensures redel_ok(Set::empty(), Seq::<Capability>::empty(), n) { reveal(redel_ok); }
/// the i-th sub-chain is that of the token the store returned for the i-th listed CID, and may be relied on
pub open spec fn proof_ok<St: UcanJwtStore>(st: &St, cid: String, p: &Ucan, u: &Ucan) -> bool {
    cid_parse(cid@) is Some && (exists|t: Seq<char>| #[trigger] st.s_token(cid_parse(cid@)->0, t) && token_is(t, p)) && link_ok(p, u)
}
pub open spec fn listed(u: &Ucan) -> Seq<String> { match u.payload.prf { Some(l) => l@, None => Seq::<String>::empty() } }
/// a chain in which every token is accepted, every link is sound and redelegations are as claimed
#[verifier::opaque]
pub open spec fn chain_ok<St: UcanJwtStore>(c: ProofChain, ctors: Map<Seq<u8>, VFnPtr>, now_time: Option<u64>, st: &St) -> bool decreases c {
    &&& accepted(ctors, &c.ucan, now_time)
    &&& c.proofs@.len() == listed(&c.ucan).len()
    &&& forall|i: int| 0 <= i < c.proofs@.len() ==> proof_ok(st, listed(&c.ucan)[i], &(#[trigger] c.proofs@[i]).ucan, &c.ucan) && chain_ok(c.proofs@[i], ctors, now_time, st)
    &&& redel_ok(c.redelegations@, caps_of(&c.ucan.payload.cap), c.proofs@.len() as int)
}
/*@fn ProofChain::validate_link_to
spec
    ensures r is Ok <==> link_ok(&self.ucan, ucan)
@*/
/*@fn ProofChain::ucan
spec
    ensures *r == self.ucan
@*/
/*@fn ProofChain::proofs
spec
    ensures *r == self.proofs
@*/
/*@fn ProofChain::try_from_token_string
attr
    #[verifier::exec_allows_no_decreases_clause]
spec
    requires old(did_parser).wf()
    ensures final(did_parser).wf(), final(did_parser).ctors() == old(did_parser).ctors(),
        r is Ok ==> token_is(ucan_token_string@, &r->Ok_0.ucan) && chain_ok(r->Ok_0, old(did_parser).ctors(), now_time, store)
@*/
/*@fn ProofChain::from_cid
attr
    #[verifier::exec_allows_no_decreases_clause]
spec
    requires old(did_parser).wf()
    ensures final(did_parser).wf(), final(did_parser).ctors() == old(did_parser).ctors(),
        r is Ok ==> (exists|t: Seq<char>| #[trigger] store.s_token(*cid, t) && token_is(t, &r->Ok_0.ucan)) && chain_ok(r->Ok_0, old(did_parser).ctors(), now_time, store)
@*/
/*@fn ProofChain::from_ucan
attr
    #[verifier::spinoff_prover]
    #[verifier::exec_allows_no_decreases_clause]
spec
    requires old(did_parser).wf()
    ensures final(did_parser).wf(), final(did_parser).ctors() == old(did_parser).ctors(),
        r is Ok ==> r->Ok_0.ucan == ucan && chain_ok(r->Ok_0, old(did_parser).ctors(), now_time, store)
loop 0 inv
    did_parser.wf(), did_parser.ctors() == old(did_parser).ctors(), proofs@.len() == __it0.pos(),
    forall|i: int| 0 <= i < proofs@.len() ==> proof_ok(store, listed(&ucan)[i], &(#[trigger] proofs@[i]).ucan, &ucan) && chain_ok(proofs@[i], old(did_parser).ctors(), now_time, store)
loop 1 inv
    redel_ok(redelegations@, __s1.subrange(0, __it1.pos()), proofs@.len() as int)
loop 2 inv
    0 <= __i2 <= __n2, __n2 == proofs@.len(), forall|k: int| #[trigger] redelegations@.contains(k) <==> red0.contains(k) || 0 <= k < __i2
proof loop 1 pre
    lem_redel_none(proofs@.len() as int); assert(__s1.subrange(0, 0) =~= Seq::empty());
proof loop 1 start
    let ghost red0 = redelegations@; let ghost m0 = __it1.pos() - 1;
    proof { assert(redel_ok(red0, __s1.subrange(0, m0), proofs@.len() as int)); }
proof loop 1 end
    assert(redel_of(__s1[m0]) is None ==> redelegations@ == red0);
    assert(redel_of(__s1[m0]) is Some ==> redel_of(__s1[m0])->0 is Index ==> redelegations@ == red0.insert(redel_of(__s1[m0])->0->Index_0 as int));
    assert(redel_of(__s1[m0]) is Some ==> redel_of(__s1[m0])->0 is All ==> forall|k: int| #[trigger] redelegations@.contains(k) <==> red0.contains(k) || 0 <= k < proofs@.len());
    lem_redel_step(red0, redelegations@, __s1, m0, proofs@.len() as int);
proof loop 1 continue
    assert(redelegations@ == red0); assert(redel_of(__s1[m0]) is None);
    lem_redel_step(red0, redelegations@, __s1, m0, proofs@.len() as int);
proof ret
    reveal(chain_ok);
@*/
// ---- what a chain reports ----
pub open spec fn claims<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>) -> bool {
    exists|j: int| 0 <= j < caps_of(&c.ucan.payload.cap).len() && sem.s_view(#[trigger] caps_of(&c.ucan.payload.cap)[j]) == Some(v)
}
/// v is reported for c: its token claims it, or a proof it redelegates reports it
#[verifier::opaque]
pub open spec fn rep<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>) -> bool decreases c {
    claims(c, sem, v) || exists|k: int| 0 <= k < c.proofs@.len() && c.redelegations@.contains(k) && rep(#[trigger] c.proofs@[k], sem, v)
}
/// a proof that c does not redelegate reports a capability enabling v
#[verifier::opaque]
pub open spec fn enabled<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>) -> bool {
    exists|k: int, w: CapabilityView<S, A>| 0 <= k < c.proofs@.len() && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) && view_enables(&w, &v)
}
/// o is an originator of v in c
#[verifier::opaque]
pub open spec fn org<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>, o: Seq<char>) -> bool decreases c {
    (claims(c, sem, v) && (
        (exists|k: int, w: CapabilityView<S, A>| 0 <= k < c.proofs@.len() && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) && view_enables(&w, &v) && org(c.proofs@[k], sem, w, o))
        || (o == c.ucan.payload.iss@ && !enabled(c, sem, v))))
    || exists|k: int| 0 <= k < c.proofs@.len() && c.redelegations@.contains(k) && rep(#[trigger] c.proofs@[k], sem, v) && org(c.proofs@[k], sem, v, o)
}
/// o is an originator that a non-redelegated proof of c reports for a capability enabling v
#[verifier::opaque]
pub open spec fn anc<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>, o: Seq<char>) -> bool {
    exists|k: int, w: CapabilityView<S, A>| 0 <= k < c.proofs@.len() && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) && view_enables(&w, &v) && org(c.proofs@[k], sem, w, o)
}
/// originators a token's own claim has: those of enabling proofs, or its issuer if there are none
#[verifier::opaque]
pub open spec fn own_org<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>, o: Seq<char>) -> bool {
    anc(c, sem, v, o) || (o == c.ucan.payload.iss@ && !enabled(c, sem, v))
}
pub open spec fn org_redel<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>, o: Seq<char>) -> bool {
    exists|k: int| 0 <= k < c.proofs@.len() && c.redelegations@.contains(k) && rep(#[trigger] c.proofs@[k], sem, v) && org(c.proofs@[k], sem, v, o)
}
#[verifier::spinoff_prover]
pub proof fn lem_org<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>, o: Seq<char>)
    ensures org(c, sem, v, o) <==> (claims(c, sem, v) && own_org(c, sem, v, o)) || org_redel(c, sem, v, o)
{
    hide(view_enables); hide(claims); reveal_with_fuel(org, 1); reveal(anc); reveal(own_org);
}
/// every reported capability has an originator
#[verifier::spinoff_prover]
pub proof fn p_c06_some<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>) requires rep(c, sem, v) ensures exists|o: Seq<char>| org(c, sem, v, o) decreases c
{
    hide(view_enables); hide(claims);
    reveal_with_fuel(rep, 1);
    if claims(c, sem, v) {
        reveal(enabled); reveal(own_org); reveal(anc);
        if enabled(c, sem, v) {
            let (k, w) = choose|k: int, w: CapabilityView<S, A>| 0 <= k < c.proofs@.len() && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) && view_enables(&w, &v);
            p_c06_some(c.proofs@[k], sem, w);
            let o = choose|o: Seq<char>| org(c.proofs@[k], sem, w, o); lem_org(c, sem, v, o); assert(anc(c, sem, v, o)); assert(org(c, sem, v, o));
        } else { let o = c.ucan.payload.iss@; lem_org(c, sem, v, o); assert(org(c, sem, v, o)); }
    } else {
        let k = choose|k: int| 0 <= k < c.proofs@.len() && c.redelegations@.contains(k) && rep(#[trigger] c.proofs@[k], sem, v);
        p_c06_some(c.proofs@[k], sem, v);
        let o = choose|o: Seq<char>| org(c.proofs@[k], sem, v, o); lem_org(c, sem, v, o); assert(org_redel(c, sem, v, o)); assert(org(c, sem, v, o));
    }
}
pub proof fn lem_enabled<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>) ensures enabled(c, sem, v) <==> exists|o: Seq<char>| anc(c, sem, v, o)
{
    hide(view_enables); reveal(enabled); reveal(anc);
    if enabled(c, sem, v) {
        let (k, w) = choose|k: int, w: CapabilityView<S, A>| 0 <= k < c.proofs@.len() && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) && view_enables(&w, &v);
        p_c06_some(c.proofs@[k], sem, w);
        let o = choose|o: Seq<char>| org(c.proofs@[k], sem, w, o); assert(anc(c, sem, v, o));
    }
}
#[verifier::opaque]
pub open spec fn info_ok<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, x: CapabilityInfo<S, A>) -> bool {
    &&& rep(c, sem, x.capability) && x.not_before == c.ucan.payload.nbf && x.expires_at == c.ucan.payload.exp
    &&& forall|o: Seq<char>| #[trigger] x.originators@.contains(o) <==> org(c, sem, x.capability, o)
}
pub open spec fn ps<S: Scope, A: Ability>(s: Seq<CapabilityInfo<S, A>>, v: CapabilityView<S, A>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == v }
pub open spec fn us<S: Scope, A: Ability>(s: Seq<CapabilityInfo<S, A>>, v: CapabilityView<S, A>, o: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == v && s[i].originators@.contains(o) }
pub open spec fn distinct<S: Scope, A: Ability>(s: Seq<CapabilityInfo<S, A>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).capability != (#[trigger] s[j]).capability }
/// the report of a chain: exactly the reported capabilities, once each, with exactly their originators and the token's bounds
#[verifier::opaque]
pub open spec fn report<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> info_ok(c, sem, #[trigger] s[i])
    &&& forall|v: CapabilityView<S, A>| #[trigger] rep(c, sem, v) ==> ps(s, v)
    &&& distinct(s)
}
/// every redelegated index is that of a proof, at every level
#[verifier::opaque]
pub open spec fn redel_wf(c: ProofChain) -> bool decreases c {
    &&& forall|k: int| #[trigger] c.redelegations@.contains(k) ==> 0 <= k < c.proofs@.len()
    &&& forall|i: int| 0 <= i < c.proofs@.len() ==> redel_wf(#[trigger] c.proofs@[i])
}
pub open spec fn bounded<S: Scope, A: Ability>(c: ProofChain, s: Seq<CapabilityInfo<S, A>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).not_before == c.ucan.payload.nbf && s[i].expires_at == c.ucan.payload.exp }
/// s holds the reports of the first n proofs that are not redelegated
#[verifier::opaque]
pub open spec fn anc_infos<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> exists|k: int| 0 <= k < n && !c.redelegations@.contains(k) && info_ok(#[trigger] c.proofs@[k], sem, #[trigger] s[i])
    &&& forall|k: int, w: CapabilityView<S, A>| 0 <= k < n && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == w && info_ok(c.proofs@[k], sem, s[i])
}
pub proof fn lem_anc_none<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem) ensures anc_infos(c, sem, Seq::<CapabilityInfo<S, A>>::empty(), 0) { reveal(anc_infos); }
/// what the loop over the proofs added is the report of the proof, or nothing
pub open spec fn added<T>(o: Seq<T>, n: Seq<T>) -> Seq<T> { n.subrange(o.len() as int, n.len() as int) }
pub broadcast proof fn lem_added<T>(o: Seq<T>, t: Seq<T>) ensures #[trigger] added(o, o + t) == t { assert(added(o, o + t) =~= t); }
pub broadcast proof fn lem_added_none<T>(o: Seq<T>) ensures #[trigger] added(o, o) == Seq::<T>::empty() { assert(added(o, o) =~= Seq::<T>::empty()); }
pub proof fn lem_anc_ext<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, o: Seq<CapabilityInfo<S, A>>, n: Seq<CapabilityInfo<S, A>>, k: int)
    requires anc_infos(c, sem, o, k), 0 <= k < c.proofs@.len(), o.len() <= n.len(), n == o + added(o, n), if c.redelegations@.contains(k) { added(o, n).len() == 0 } else { report(c.proofs@[k], sem, added(o, n)) }
    ensures anc_infos(c, sem, n, k + 1)
{ lem_anc_step(c, sem, o, added(o, n), k); }
pub proof fn lem_anc_step<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, t: Seq<CapabilityInfo<S, A>>, n: int)
    requires anc_infos(c, sem, s, n), 0 <= n < c.proofs@.len(), if c.redelegations@.contains(n) { t.len() == 0 } else { report(c.proofs@[n], sem, t) }
    ensures anc_infos(c, sem, s + t, n + 1)
{
    reveal(anc_infos); reveal(report);
    let r = s + t;
    assert forall|i: int| 0 <= i < r.len() implies exists|k: int| 0 <= k < n + 1 && !c.redelegations@.contains(k) && info_ok(#[trigger] c.proofs@[k], sem, #[trigger] r[i]) by {
        if i < s.len() { let k = choose|k: int| 0 <= k < n && !c.redelegations@.contains(k) && info_ok(#[trigger] c.proofs@[k], sem, s[i]); assert(info_ok(c.proofs@[k], sem, r[i])); }
        else { assert(r[i] == t[i - s.len()]); assert(info_ok(c.proofs@[n], sem, r[i])); }
    }
    assert forall|k: int, w: CapabilityView<S, A>| 0 <= k < n + 1 && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).capability == w && info_ok(c.proofs@[k], sem, r[i]) by {
        if k < n { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == w && info_ok(c.proofs@[k], sem, s[i]); assert(r[i] == s[i]); }
        else { assert(ps(t, w)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).capability == w; assert(r[i + s.len()] == t[i]); assert(info_ok(c.proofs@[n], sem, t[i])); }
    }
}
/// with the reports of all proofs, an ancestor's originator is one of an enabling report
pub open spec fn from_anc<S: Scope, A: Ability>(s: Seq<CapabilityInfo<S, A>>, n: int, v: CapabilityView<S, A>, o: Seq<char>) -> bool { exists|j: int| 0 <= j < n && view_enables(&(#[trigger] s[j]).capability, &v) && s[j].originators@.contains(o) }
#[verifier::spinoff_prover]
pub proof fn lem_anc<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, v: CapabilityView<S, A>, o: Seq<char>)
    requires anc_infos(c, sem, s, c.proofs@.len() as int) ensures anc(c, sem, v, o) <==> from_anc(s, s.len() as int, v, o)
{
    hide(view_enables); reveal(anc_infos); reveal(info_ok); reveal(anc);
    if anc(c, sem, v, o) {
        let (k, w) = choose|k: int, w: CapabilityView<S, A>| 0 <= k < c.proofs@.len() && !c.redelegations@.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) && view_enables(&w, &v) && org(c.proofs@[k], sem, w, o);
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == w && info_ok(c.proofs@[k], sem, s[i]);
        assert(view_enables(&s[i].capability, &v) && s[i].originators@.contains(o));
    }
    if from_anc(s, s.len() as int, v, o) {
        let j = choose|j: int| 0 <= j < s.len() && view_enables(&(#[trigger] s[j]).capability, &v) && s[j].originators@.contains(o);
        let k = choose|k: int| 0 <= k < c.proofs@.len() && !c.redelegations@.contains(k) && info_ok(#[trigger] c.proofs@[k], sem, s[j]);
        assert(rep(c.proofs@[k], sem, s[j].capability));
    }
}
/// x is what p reports, with the bounds of c
#[verifier::opaque]
pub open spec fn passed_on<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, p: ProofChain, sem: &Sem, x: CapabilityInfo<S, A>) -> bool {
    rep(p, sem, x.capability) && x.not_before == c.ucan.payload.nbf && x.expires_at == c.ucan.payload.exp && forall|o: Seq<char>| #[trigger] x.originators@.contains(o) <==> org(p, sem, x.capability, o)
}
#[verifier::opaque]
pub open spec fn redel_infos<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, ix: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> exists|k: int| #[trigger] ix.contains(k) && passed_on(c, c.proofs@[k], sem, #[trigger] s[i])
    &&& forall|k: int, w: CapabilityView<S, A>| #[trigger] ix.contains(k) && #[trigger] rep(c.proofs@[k], sem, w) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == w && passed_on(c, c.proofs@[k], sem, s[i])
}
pub proof fn lem_redel_infos_none<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem) ensures redel_infos(c, sem, Seq::<CapabilityInfo<S, A>>::empty(), Seq::<int>::empty()) { reveal(redel_infos); }
pub open spec fn rebound<S: Scope, A: Ability>(c: ProofChain, t: Seq<CapabilityInfo<S, A>>, r: Seq<CapabilityInfo<S, A>>, n: int) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).capability == t[i].capability && r[i].originators == t[i].originators && r[i].not_before == c.ucan.payload.nbf && r[i].expires_at == c.ucan.payload.exp
}
#[verifier::spinoff_prover]
pub proof fn lem_redel_infos_step<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, t: Seq<CapabilityInfo<S, A>>, r: Seq<CapabilityInfo<S, A>>, ix: Seq<int>, k: int)
    requires redel_infos(c, sem, s, ix), 0 <= k < c.proofs@.len(), report(c.proofs@[k], sem, t), rebound(c, t, r, t.len() as int)
    ensures redel_infos(c, sem, s + r, ix.push(k))
{
    reveal(redel_infos); reveal(report); reveal(info_ok); reveal(passed_on);
    let q = s + r; let jx = ix.push(k);
    assert(jx[ix.len() as int] == k); assert(jx.contains(k));
    assert forall|m: int| ix.contains(m) implies #[trigger] jx.contains(m) by { let a = choose|a: int| 0 <= a < ix.len() && ix[a] == m; assert(jx[a] == m); }
    assert forall|i: int| 0 <= i < q.len() implies exists|m: int| #[trigger] jx.contains(m) && passed_on(c, c.proofs@[m], sem, #[trigger] q[i]) by {
        if i < s.len() { let m = choose|m: int| #[trigger] ix.contains(m) && passed_on(c, c.proofs@[m], sem, s[i]); assert(jx.contains(m)); assert(q[i] == s[i]); }
        else { let y = i - s.len(); assert(q[i] == r[y]); assert(info_ok(c.proofs@[k], sem, t[y])); assert(passed_on(c, c.proofs@[k], sem, q[i])); }
    }
    assert forall|m: int, w: CapabilityView<S, A>| #[trigger] jx.contains(m) && #[trigger] rep(c.proofs@[m], sem, w) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).capability == w && passed_on(c, c.proofs@[m], sem, q[i]) by {
        if ix.contains(m) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == w && passed_on(c, c.proofs@[m], sem, s[i]); assert(q[i] == s[i]); }
        else { let a = choose|a: int| 0 <= a < jx.len() && jx[a] == m; assert(a == ix.len()) by { if a < ix.len() { assert(ix[a] == m); } }
            assert(ps(t, w)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).capability == w; assert(info_ok(c.proofs@[k], sem, t[i])); assert(q[i + s.len()] == r[i]); assert(passed_on(c, c.proofs@[k], sem, r[i])); }
    }
}
/// s holds the recognised views among the first n capabilities
pub open spec fn views_of<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(sem: &Sem, caps: Seq<Capability>, n: int, s: Seq<CapabilityView<S, A>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> exists|j: int| 0 <= j < n && sem.s_view(#[trigger] caps[j]) == Some(#[trigger] s[i])
    &&& forall|j: int| 0 <= j < n ==> (sem.s_view(#[trigger] caps[j]) matches Some(v) ==> s.contains(v))
}
/// x is a claim of c's own token
#[verifier::opaque]
pub open spec fn own_info<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>, x: CapabilityInfo<S, A>) -> bool {
    x.capability == v && x.not_before == c.ucan.payload.nbf && x.expires_at == c.ucan.payload.exp && forall|o: Seq<char>| #[trigger] x.originators@.contains(o) <==> own_org(c, sem, v, o)
}
pub open spec fn own_infos<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, vs: Seq<CapabilityView<S, A>>, n: int, s: Seq<CapabilityInfo<S, A>>) -> bool {
    s.len() == n && forall|i: int| 0 <= i < n ==> own_info(c, sem, vs[i], #[trigger] s[i])
}
/// r and m together hold what is reported for c; m is merged already
#[verifier::opaque]
pub open spec fn merging<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, r: Seq<CapabilityInfo<S, A>>, m: Seq<CapabilityInfo<S, A>>) -> bool {
    &&& forall|v: CapabilityView<S, A>| #[trigger] rep(c, sem, v) <==> ps(r, v) || ps(m, v)
    &&& forall|v: CapabilityView<S, A>, o: Seq<char>| #[trigger] org(c, sem, v, o) <==> us(r, v, o) || us(m, v, o)
    &&& bounded(c, r) && bounded(c, m) && distinct(m)
    &&& forall|i: int| 0 <= i < m.len() ==> !ps(r, (#[trigger] m[i]).capability)
}
pub open spec fn rix(o: Seq<usize>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| o[i] as int) }
pub proof fn lem_from_anc_step<S: Scope, A: Ability>(s: Seq<CapabilityInfo<S, A>>, n: int, v: CapabilityView<S, A>, o: Seq<char>) requires 0 <= n < s.len()
    ensures from_anc(s, n + 1, v, o) <==> from_anc(s, n, v, o) || (view_enables(&s[n].capability, &v) && s[n].originators@.contains(o))
{
    if from_anc(s, n, v, o) { let j = choose|j: int| 0 <= j < n && view_enables(&(#[trigger] s[j]).capability, &v) && s[j].originators@.contains(o); assert(from_anc(s, n + 1, v, o)); }
}
pub proof fn lem_own_leaf<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, v: CapabilityView<S, A>, o: Seq<char>) requires c.proofs@.len() == 0 ensures own_org(c, sem, v, o) <==> o == c.ucan.payload.iss@ { reveal(own_org); reveal(anc); reveal(enabled); }
#[verifier::spinoff_prover]
pub proof fn lem_merge_start<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, vs: Seq<CapabilityView<S, A>>, own: Seq<CapabilityInfo<S, A>>, red: Seq<CapabilityInfo<S, A>>)
    requires views_of(sem, caps_of(&c.ucan.payload.cap), caps_of(&c.ucan.payload.cap).len() as int, vs), own_infos(c, sem, vs, vs.len() as int, own),
        redel_infos(c, sem, red, rix(c.redelegations.ord(), c.redelegations.ord().len() as int)), redel_wf(c)
    ensures merging(c, sem, own + red, Seq::<CapabilityInfo<S, A>>::empty())
{
    reveal(merging); reveal(redel_infos); reveal(passed_on); reveal(own_info); reveal_with_fuel(rep, 1); reveal_with_fuel(redel_wf, 1);
    let ix = rix(c.redelegations.ord(), c.redelegations.ord().len() as int); let r = own + red; let e = Seq::<CapabilityInfo<S, A>>::empty(); let caps = caps_of(&c.ucan.payload.cap);
    assert forall|k: int| #[trigger] c.redelegations@.contains(k) implies ix.contains(k) by { let i = choose|i: int| 0 <= i < c.redelegations.ord().len() && (#[trigger] c.redelegations.ord()[i]).kv() == k; assert(ix[i] == k); }
    assert forall|k: int| #[trigger] ix.contains(k) implies c.redelegations@.contains(k) && 0 <= k < c.proofs@.len() by { let i = choose|i: int| 0 <= i < ix.len() && ix[i] == k; assert(c.redelegations.ord()[i].kv() == k); }
    assert forall|v: CapabilityView<S, A>| claims(c, sem, v) implies #[trigger] vs.contains(v) by { }
    assert forall|v: CapabilityView<S, A>, i: int| 0 <= i < vs.len() && #[trigger] vs[i] == v implies #[trigger] claims(c, sem, v) by { }
    assert forall|v: CapabilityView<S, A>| #[trigger] rep(c, sem, v) <==> ps(r, v) || ps(e, v) by {
        if rep(c, sem, v) {
            if claims(c, sem, v) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == v; assert(own_info(c, sem, vs[i], own[i])); assert(r[i].capability == v); }
            else { let k = choose|k: int| 0 <= k < c.proofs@.len() && c.redelegations@.contains(k) && rep(#[trigger] c.proofs@[k], sem, v); assert(ix.contains(k)); let i = choose|i: int| 0 <= i < red.len() && (#[trigger] red[i]).capability == v && passed_on(c, c.proofs@[k], sem, red[i]); assert(r[i + own.len()] == red[i]); }
        }
        if ps(r, v) {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).capability == v;
            if i < own.len() { assert(own_info(c, sem, vs[i], own[i])); assert(claims(c, sem, v)); }
            else { let y = i - own.len(); assert(r[i] == red[y]); let k = choose|k: int| #[trigger] ix.contains(k) && passed_on(c, c.proofs@[k], sem, red[y]); assert(rep(c.proofs@[k], sem, v)); }
        }
    }
    assert forall|v: CapabilityView<S, A>, o: Seq<char>| #[trigger] org(c, sem, v, o) <==> us(r, v, o) || us(e, v, o) by {
        lem_org(c, sem, v, o);
        if org(c, sem, v, o) {
            if claims(c, sem, v) && own_org(c, sem, v, o) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == v; assert(own_info(c, sem, vs[i], own[i])); assert(r[i] == own[i]); assert(r[i].originators@.contains(o)); }
            else { let k = choose|k: int| 0 <= k < c.proofs@.len() && c.redelegations@.contains(k) && rep(#[trigger] c.proofs@[k], sem, v) && org(c.proofs@[k], sem, v, o); assert(ix.contains(k)); let i = choose|i: int| 0 <= i < red.len() && (#[trigger] red[i]).capability == v && passed_on(c, c.proofs@[k], sem, red[i]); assert(r[i + own.len()] == red[i]); assert(red[i].originators@.contains(o)); }
        }
        if us(r, v, o) {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).capability == v && r[i].originators@.contains(o);
            if i < own.len() { assert(own_info(c, sem, vs[i], own[i])); assert(own[i] == r[i]); assert(claims(c, sem, v)); }
            else { let y = i - own.len(); assert(r[i] == red[y]); let k = choose|k: int| #[trigger] ix.contains(k) && passed_on(c, c.proofs@[k], sem, red[y]); assert(org(c.proofs@[k], sem, v, o)); assert(rep(c.proofs@[k], sem, v)); }
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).not_before == c.ucan.payload.nbf && r[i].expires_at == c.ucan.payload.exp by {
        if i < own.len() { assert(own_info(c, sem, vs[i], own[i])); } else { let y = i - own.len(); assert(r[i] == red[y]); let k = choose|k: int| #[trigger] ix.contains(k) && passed_on(c, c.proofs@[k], sem, red[y]); }
    }
}
pub proof fn lem_merge_into<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, r0: Seq<CapabilityInfo<S, A>>, r: Seq<CapabilityInfo<S, A>>, m: Seq<CapabilityInfo<S, A>>, j: int)
    requires merging(c, sem, r0, m), r0.len() > 0, r.len() == r0.len() - 1, 0 <= j < r.len(), forall|i: int| 0 <= i < r.len() && i != j ==> #[trigger] r[i] == r0[i],
        r[j].capability == r0[j].capability, r0[j].capability == r0.last().capability, r[j].not_before == r0[j].not_before, r[j].expires_at == r0[j].expires_at,
        r[j].originators@ == r0[j].originators@.union(r0.last().originators@)
    ensures merging(c, sem, r, m)
{
    reveal(merging);
    assert forall|v: CapabilityView<S, A>| ps(r, v) <==> #[trigger] ps(r0, v) by {
        if ps(r, v) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).capability == v; assert(r0[i].capability == v); }
        if ps(r0, v) { let i = choose|i: int| 0 <= i < r0.len() && (#[trigger] r0[i]).capability == v; if i == r0.len() - 1 { assert(r[j].capability == v); } else { assert(r[i].capability == v); } }
    }
    assert forall|v: CapabilityView<S, A>, o: Seq<char>| us(r, v, o) <==> #[trigger] us(r0, v, o) by {
        if us(r, v, o) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).capability == v && r[i].originators@.contains(o);
            if i == j && !r0[j].originators@.contains(o) { let l = r0.len() - 1; assert(r0[l].originators@.contains(o) && r0[l].capability == v); } else { assert(r0[i].originators@.contains(o) && r0[i].capability == v); } }
        if us(r0, v, o) { let i = choose|i: int| 0 <= i < r0.len() && (#[trigger] r0[i]).capability == v && r0[i].originators@.contains(o);
            if i == r0.len() - 1 { assert(r[j].capability == v && r[j].originators@.contains(o)); } else { assert(r[i].capability == v && r[i].originators@.contains(o)); } }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).not_before == c.ucan.payload.nbf && r[i].expires_at == c.ucan.payload.exp by { assert(r0[i].not_before == c.ucan.payload.nbf); }
}
pub proof fn lem_merge_new<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, r0: Seq<CapabilityInfo<S, A>>, r: Seq<CapabilityInfo<S, A>>, m: Seq<CapabilityInfo<S, A>>, n: Seq<CapabilityInfo<S, A>>)
    requires merging(c, sem, r0, m), r0.len() > 0, r == r0.drop_last(), n == m.push(r0.last()), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).capability != r0.last().capability
    ensures merging(c, sem, r, n)
{
    reveal(merging);
    let x = r0.last(); let l = r0.len() - 1; let ml = m.len() as int;
    assert(r0[l] == x); assert(n[ml] == x); assert(ps(r0, x.capability));
    assert forall|v: CapabilityView<S, A>| #[trigger] rep(c, sem, v) <==> ps(r, v) || ps(n, v) by {
        if ps(r, v) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).capability == v; assert(r0[i].capability == v); }
        if ps(r0, v) { let i = choose|i: int| 0 <= i < r0.len() && (#[trigger] r0[i]).capability == v; if i == l { assert(n[ml].capability == v); } else { assert(r[i].capability == v); } }
        if ps(m, v) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).capability == v; assert(n[i].capability == v); }
        if ps(n, v) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).capability == v; if i < ml { assert(m[i].capability == v); } }
    }
    assert forall|v: CapabilityView<S, A>, o: Seq<char>| #[trigger] org(c, sem, v, o) <==> us(r, v, o) || us(n, v, o) by {
        if us(r, v, o) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).capability == v && r[i].originators@.contains(o); assert(r0[i].capability == v && r0[i].originators@.contains(o)); }
        if us(r0, v, o) { let i = choose|i: int| 0 <= i < r0.len() && (#[trigger] r0[i]).capability == v && r0[i].originators@.contains(o); if i == l { assert(n[ml].capability == v && n[ml].originators@.contains(o)); } else { assert(r[i].capability == v && r[i].originators@.contains(o)); } }
        if us(m, v, o) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).capability == v && m[i].originators@.contains(o); assert(n[i].capability == v && n[i].originators@.contains(o)); }
        if us(n, v, o) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).capability == v && n[i].originators@.contains(o); if i < ml { assert(m[i].capability == v && m[i].originators@.contains(o)); } else { assert(us(r0, v, o)); } }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).not_before == c.ucan.payload.nbf && r[i].expires_at == c.ucan.payload.exp by { assert(r0[i].not_before == c.ucan.payload.nbf); }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).capability != (#[trigger] n[j]).capability by { assert(n[i] == m[i]); if j < ml { assert(n[j] == m[j]); } }
    assert forall|i: int| 0 <= i < n.len() implies !ps(r, (#[trigger] n[i]).capability) by {
        if ps(r, n[i].capability) { let y = choose|y: int| 0 <= y < r.len() && (#[trigger] r[y]).capability == n[i].capability; assert(r0[y] == r[y]); if i < ml { assert(n[i] == m[i]); assert(ps(r0, m[i].capability)); } }
    }
}
pub proof fn lem_merge_done<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, r: Seq<CapabilityInfo<S, A>>, m: Seq<CapabilityInfo<S, A>>) requires merging(c, sem, r, m), r.len() == 0 ensures report(c, sem, m)
{
    reveal(merging); reveal(report); reveal(info_ok);
    assert forall|i: int| 0 <= i < m.len() implies info_ok(c, sem, #[trigger] m[i]) by {
        let v = m[i].capability; assert(ps(m, v));
        assert forall|o: Seq<char>| #[trigger] m[i].originators@.contains(o) <==> org(c, sem, v, o) by {
            if m[i].originators@.contains(o) { assert(us(m, v, o)); }
            if org(c, sem, v, o) { assert(!us(r, v, o)); let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).capability == v && m[j].originators@.contains(o); if j < i { assert(m[j].capability != m[i].capability); } if i < j { assert(m[i].capability != m[j].capability); } }
        }
    }
}
/*@fn ProofChain::reduce_capabilities
attr
    #[verifier::spinoff_prover]
spec
    requires redel_wf(*self)
    ensures report(*self, semantics, r@)
    decreases *self
loop 0 inv
    anc_infos(*self, semantics, __out0@, __it0.pos()), __s0 == enumd(refs(self.proofs@))
proof loop 0 pre
    lem_anc_none(*self, semantics);
proof loop 0 start
    let ghost o0 = __out0@; let ghost k0 = __it0.pos() - 1;
    proof { reveal_with_fuel(redel_wf, 1); assert(redel_wf(self.proofs@[k0])); }
proof loop 0 end
    broadcast use {lem_added, lem_added_none}; assert(added(o0, __out0@).len() + o0.len() == __out0@.len()); assert(__out0@ =~= o0 + added(o0, __out0@)); lem_anc_ext(*self, semantics, o0, __out0@, k0);
loop 1 inv
    redel_infos(*self, semantics, __out1@, rix(self.redelegations.ord(), __it1.pos())), __s1 == refs(self.redelegations.ord())
proof loop 1 pre
    lem_redel_infos_none(*self, semantics); assert(rix(self.redelegations.ord(), 0) =~= Seq::<int>::empty());
proof loop 1 start
    let ghost o1 = __out1@; let ghost p1 = __it1.pos() - 1;
    proof { reveal_with_fuel(redel_wf, 1); assert(self.redelegations@.contains(self.redelegations.ord()[p1].kv())); assert(redel_wf(self.proofs@[*__x1 as int])); }
loop 2 inv
    rebound(*self, __s2, __out2@, __it2.pos())
proof loop 2 post
    lem_redel_infos_step(*self, semantics, __out1@, __s2, __out2@, rix(self.redelegations.ord(), p1), *index as int);
    assert(rix(self.redelegations.ord(), p1 + 1) =~= rix(self.redelegations.ord(), p1).push(*index as int));
proof loop 1 end
    assert(__out1@ == o1 + __y1.seq());
loop 3 inv
    views_of(semantics, __s3, __it3.pos(), __out3@), __s3 == caps_of(&self.ucan.payload.cap)
proof loop 3 start
    let ghost o3 = __out3@; let ghost p3 = __it3.pos() - 1;
proof loop 3 end
    if semantics.s_view(__s3[p3]) is Some { assert(__out3@[o3.len() as int] == semantics.s_view(__s3[p3])->0); }
    assert forall|v: CapabilityView<S, A>| o3.contains(v) implies #[trigger] __out3@.contains(v) by { let i = choose|i: int| 0 <= i < o3.len() && o3[i] == v; assert(__out3@[i] == v); }
    assert(views_of(semantics, __s3, p3 + 1, __out3@));
loop 4 inv
    own_infos(*self, semantics, __s4, __it4.pos(), __out4@)
proof loop 4 end
    reveal(own_info); assert(__y4.originators@ == Set::<Seq<char>>::empty().insert(self.ucan.payload.iss@)); assert forall|o: Seq<char>| own_org(*self, semantics, __y4.capability, o) <==> o == self.ucan.payload.iss@ by { lem_own_leaf(*self, semantics, __y4.capability, o); }
loop 5 inv
    own_infos(*self, semantics, __s5, __it5.pos(), __out5@)
loop 6 inv
    __s6 == refs(ancestral_capability_infos@), forall|o: Seq<char>| #[trigger] originators@.contains(o) <==> from_anc(ancestral_capability_infos@, __it6.pos(), capability, o)
proof loop 6 start
    let ghost og6 = originators@; let ghost p6 = __it6.pos() - 1;
    proof { assert forall|o: Seq<char>| from_anc(ancestral_capability_infos@, p6 + 1, capability, o) <==> #[trigger] og6.contains(o) || (view_enables(&ancestral_capability_infos@[p6].capability, &capability) && ancestral_capability_infos@[p6].originators@.contains(o)) by { lem_from_anc_step(ancestral_capability_infos@, p6, capability, o); } }
proof loop 6 post
    assert forall|o: Seq<char>| #![trigger originators@.contains(o)] #![trigger anc(*self, semantics, capability, o)] originators@.contains(o) <==> anc(*self, semantics, capability, o) by { lem_anc(*self, semantics, ancestral_capability_infos@, capability, o); }
    lem_enabled(*self, semantics, capability);
    assert((originators.s_len() == 0) <==> !enabled(*self, semantics, capability)) by { if originators.s_len() != 0 { assert(originators@.contains(originators.ord()[0].kv())); } };
proof loop 5 end
    reveal(own_info);
    assert forall|o: Seq<char>| #[trigger] __y5.originators@.contains(o) <==> own_org(*self, semantics, __y5.capability, o) by { reveal(own_org); };
proof loop 7 pre
    lem_merge_start(*self, semantics, self_capabilities_iter.seq(), own7, red7);
loop 7 inv
    merging(*self, semantics, self_capability_infos@, merged_capability_infos@)
loop 7 ens
    merging(*self, semantics, self_capability_infos@, merged_capability_infos@), self_capability_infos@.len() == 0
loop 7 dec
    self_capability_infos@.len()
proof loop 7 head
    let ghost r7 = self_capability_infos@; let ghost m7 = merged_capability_infos@;
loop 8 inv
    self_capability_infos@ == r7.drop_last(), r7.len() > 0, capability_info == r7.last(), merged_capability_infos@ == m7, forall|j: int| 0 <= j < __i8 ==> (#[trigger] self_capability_infos@[j]).capability != capability_info.capability
proof loop 8 pre
    assert(self_capability_infos@ =~= r7.drop_last());
proof loop 7 end
    lem_merge_new(*self, semantics, r7, self_capability_infos@, m7, merged_capability_infos@);
proof loop 7 continue
    lem_merge_into(*self, semantics, r7, self_capability_infos@, m7, __i8 - 1);
proof loop 7 post
    lem_merge_done(*self, semantics, self_capability_infos@, merged_capability_infos@);
proof after self_capability_infos
    let ghost own7 = self_capability_infos@; let ghost red7 = redelegated_capability_infos@;
@*/
// ---- what holds at every depth ----
/// d is a sub-chain of c, at any depth
pub open spec fn below(c: ProofChain, d: ProofChain) -> bool decreases c { exists|i: int| 0 <= i < c.proofs@.len() && (#[trigger] c.proofs@[i] == d || below(c.proofs@[i], d)) }
/// every token of a chain is accepted, and is linked to the token that relies on it
#[verifier::spinoff_prover]
pub proof fn p_c04_depth<St: UcanJwtStore>(c: ProofChain, d: ProofChain, ctors: Map<Seq<u8>, VFnPtr>, now_time: Option<u64>, st: &St)
    requires chain_ok(c, ctors, now_time, st), below(c, d) ensures chain_ok(d, ctors, now_time, st), accepted(ctors, &d.ucan, now_time) decreases c
{
    reveal_with_fuel(chain_ok, 2);
    let i = choose|i: int| 0 <= i < c.proofs@.len() && (#[trigger] c.proofs@[i] == d || below(c.proofs@[i], d));
    assert(chain_ok(c.proofs@[i], ctors, now_time, st));
    if c.proofs@[i] != d { p_c04_depth(c.proofs@[i], d, ctors, now_time, st); }
}
pub proof fn p_c03_links<St: UcanJwtStore>(c: ProofChain, i: int, ctors: Map<Seq<u8>, VFnPtr>, now_time: Option<u64>, st: &St)
    requires chain_ok(c, ctors, now_time, st), 0 <= i < c.proofs@.len() ensures link_ok(&c.proofs@[i].ucan, &c.ucan)
{ reveal_with_fuel(chain_ok, 1); assert(chain_ok(c.proofs@[i], ctors, now_time, st)); }
/// the window of a token lies in that of every token below it
pub proof fn p_c08_within<St: UcanJwtStore>(c: ProofChain, d: ProofChain, ctors: Map<Seq<u8>, VFnPtr>, now_time: Option<u64>, st: &St)
    requires chain_ok(c, ctors, now_time, st), below(c, d) ensures begins_before(&d.ucan, &c.ucan), ends_after(&d.ucan, &c.ucan) decreases c
{
    let i = choose|i: int| 0 <= i < c.proofs@.len() && (#[trigger] c.proofs@[i] == d || below(c.proofs@[i], d));
    p_c03_links(c, i, ctors, now_time, st);
    assert(chain_ok(c.proofs@[i], ctors, now_time, st)) by { reveal_with_fuel(chain_ok, 1); }
    if c.proofs@[i] != d { p_c08_within(c.proofs@[i], d, ctors, now_time, st); }
}
/// a chain that was built can be reduced: every index it redelegates is there
#[verifier::spinoff_prover]
pub proof fn p_c20_redel<St: UcanJwtStore>(c: ProofChain, ctors: Map<Seq<u8>, VFnPtr>, now_time: Option<u64>, st: &St) requires chain_ok(c, ctors, now_time, st) ensures redel_wf(c) decreases c
{
    reveal_with_fuel(chain_ok, 1); reveal_with_fuel(redel_wf, 1); reveal(redel_ok);
    assert forall|i: int| 0 <= i < c.proofs@.len() implies redel_wf(#[trigger] c.proofs@[i]) by { assert(chain_ok(c.proofs@[i], ctors, now_time, st)); p_c20_redel(c.proofs@[i], ctors, now_time, st); }
}
/// a report in words: each capability is claimed or passed on, and each originator is deserved
pub proof fn p_c06_deserved<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, i: int, o: Seq<char>)
    requires report(c, sem, s), 0 <= i < s.len(), s[i].originators@.contains(o)
    ensures claims(c, sem, s[i].capability) || org_redel(c, sem, s[i].capability, o),
        org_redel(c, sem, s[i].capability, o) || anc(c, sem, s[i].capability, o) || (o == c.ucan.payload.iss@ && !enabled(c, sem, s[i].capability))
{ reveal(report); reveal(info_ok); reveal(own_org); assert(info_ok(c, sem, s[i])); lem_org(c, sem, s[i].capability, o); }
/// a report is complete: all claims, all redelegated capabilities, all their originators
pub proof fn p_c07_claims<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, v: CapabilityView<S, A>)
    requires report(c, sem, s), claims(c, sem, v) ensures ps(s, v), forall|o: Seq<char>| #[trigger] own_org(c, sem, v, o) ==> us(s, v, o)
{
    hide(claims); reveal(report); reveal(info_ok); reveal_with_fuel(rep, 1); assert(rep(c, sem, v));
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == v; assert(info_ok(c, sem, s[i]));
    assert forall|o: Seq<char>| #[trigger] own_org(c, sem, v, o) implies us(s, v, o) by { lem_org(c, sem, v, o); assert(s[i].originators@.contains(o)); }
}
pub proof fn p_c07_redelegated<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>, k: int, v: CapabilityView<S, A>)
    requires report(c, sem, s), 0 <= k < c.proofs@.len(), c.redelegations@.contains(k), rep(c.proofs@[k], sem, v) ensures ps(s, v), forall|o: Seq<char>| #[trigger] org(c.proofs@[k], sem, v, o) ==> us(s, v, o)
{
    hide(claims); reveal(report); reveal(info_ok); assert(rep(c, sem, v)) by { reveal_with_fuel(rep, 1); }
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).capability == v; assert(info_ok(c, sem, s[i]));
    assert forall|o: Seq<char>| #[trigger] org(c.proofs@[k], sem, v, o) implies us(s, v, o) by { assert(org_redel(c, sem, v, o)); lem_org(c, sem, v, o); assert(s[i].originators@.contains(o)); }
}
pub proof fn p_c08_bounds<S: Scope, A: Ability, Sem: CapabilitySemantics<S, A>>(c: ProofChain, sem: &Sem, s: Seq<CapabilityInfo<S, A>>) requires report(c, sem, s) ensures bounded(c, s)
{ reveal(report); reveal(info_ok); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).not_before == c.ucan.payload.nbf && s[i].expires_at == c.ucan.payload.exp by { assert(info_ok(c, sem, s[i])); } }
// =====================================================================================
// Builder
// =====================================================================================
/*@type Signable noclone@*/
/*@type UcanBuilder noclone@*/
/// the payload says what the signable holds, and nothing else
pub open spec fn payload_says<'a, K: KeyMaterial>(s: &Signable<'a, K>, p: &UcanPayload) -> bool {
    &&& p.ucv@ == s_ucan_version() && p.aud@ == s.audience@ && s.issuer.s_did() == Some(p.iss@)
    &&& p.exp == s.expiration && p.nbf == s.not_before && (p.nnc is Some <==> s.add_nonce)
    &&& dv(p.cap.0) == build_caps(s.capabilities@)
    &&& p.fct == (if s.facts@ == Map::<Seq<char>, Value>::empty() { None } else { Some(s.facts) })
    &&& match p.prf { None => s.proofs@.len() == 0, Some(l) => s.proofs@.len() > 0 && l@ == s.proofs@ }
}
pub open spec fn signable_ok<'a, K: KeyMaterial>(s: &Signable<'a, K>) -> bool { all_obj(s.capabilities@) && s.issuer.s_did() is Some }
/// u is what s signs to: its content, and the issuer key's signature over its encoding
pub open spec fn signed_from<'a, K: KeyMaterial>(s: &Signable<'a, K>, u: &Ucan) -> bool {
    u.header.alg@ == s.issuer.s_alg() && u.header.typ@ == "JWT"@ && payload_says(s, &u.payload) && canonical(u) && s.issuer.s_signs(u.signed_data@, Ok(u.signature))
}
/*@fn Signable::ucan_header
spec
    ensures r.alg@ == self.issuer.s_alg(), r.typ@ == "JWT"@
@*/
/*@fn Signable::ucan_payload
spec
    ensures match r { Ok(p) => signable_ok(self) && payload_says(self, &p), Err(_) => !signable_ok(self) }
proof start
    assert((self.facts.s_len() == 0) <==> self.facts@ == Map::<Seq<char>, Value>::empty()) by { if self.facts.s_len() == 0 { assert(self.facts@ =~= Map::<Seq<char>, Value>::empty()); } else { assert(self.facts@.dom().contains(self.facts.ents()[0].0.kv())); } };
@*/
/*@fn Signable::sign
spec
    ensures match r { Ok(u) => signable_ok(self) && signed_from(self, &u),
        Err(_) => !signable_ok(self) || (exists|h: UcanHeader| b64_of(&h) is None) || (exists|p: UcanPayload| payload_says(self, &p) && b64_of(&p) is None) || (exists|d: Seq<u8>, x: Result<Vec<u8>, Error>| #[trigger] self.issuer.s_signs(d, x) && x is Err) }
@*/
/*@impl impl<'a, K: KeyMaterial> UcanBuilder<'a, K>@*/
/*@fn <UcanBuilder<K> as Default>::default
spec
    ensures r.issuer is None, r.audience is None, r.capabilities@.len() == 0, r.lifetime is None, r.expiration is None, r.not_before is None, r.facts@ == Map::<Seq<char>, Value>::empty(), r.proofs@.len() == 0, !r.add_nonce
@*/
/*@endimpl@*/
/*@fn UcanBuilder::issued_by
spec
    ensures r == (UcanBuilder { issuer: Some(issuer), ..self })
@*/
/*@fn UcanBuilder::for_audience
spec
    ensures r.audience is Some, r.audience->0@ == audience@, r == (UcanBuilder { audience: r.audience, ..self })
@*/
/*@fn UcanBuilder::with_lifetime
spec
    ensures r == (UcanBuilder { lifetime: Some(seconds), ..self })
@*/
/*@fn UcanBuilder::with_expiration
spec
    ensures r == (UcanBuilder { expiration: Some(timestamp), ..self })
@*/
/*@fn UcanBuilder::not_before
spec
    ensures r == (UcanBuilder { not_before: Some(timestamp), ..self })
@*/
/*@fn UcanBuilder::with_fact
spec
    ensures match ser_value(fact) { Some(v) => r.facts@ == self.facts@.insert(key@, v) && r == (UcanBuilder { facts: r.facts, ..self }), None => r == self }
@*/
/*@fn UcanBuilder::with_nonce
spec
    ensures r == (UcanBuilder { add_nonce: true, ..self })
@*/
pub open spec fn hasher_of(h: Option<Code>) -> Code { match h { Some(c) => c, None => Code::Blake3_256 } }
/// the CID of a token, if it has a text
pub open spec fn cid_of(u: &Ucan, h: Option<Code>) -> Option<Cid> { match token_text(u) { Some(t) => Some(cid_v1(0x55, mhash(hasher_of(h), utf8(t)))), None => None } }
/*@fn UcanBuilder::default_hasher
spec
    ensures r == Code::Blake3_256
@*/
/*@fn UcanBuilder::witnessed_by
spec
    ensures match cid_of(authority, hasher) { None => r == self, Some(c) => r == (UcanBuilder { proofs: r.proofs, ..self }) && r.proofs@ == self.proofs@.push(mk_str(cid_text(c))) }
@*/
/*@fn UcanBuilder::claiming_capability
spec
    ensures r == (UcanBuilder { capabilities: r.capabilities, ..self }), r.capabilities@.len() == self.capabilities@.len() + 1, r.capabilities@.drop_last() == self.capabilities@, capability.s_into(r.capabilities@.last())
@*/
/*@fn UcanBuilder::claiming_capabilities
spec
    ensures r == (UcanBuilder { capabilities: r.capabilities, ..self }), r.capabilities@.len() == self.capabilities@.len() + capabilities@.len(), r.capabilities@.subrange(0, self.capabilities@.len() as int) == self.capabilities@,
        forall|i: int| 0 <= i < capabilities@.len() ==> (#[trigger] capabilities@[i]).s_into(r.capabilities@[self.capabilities@.len() + i])
loop 0 inv
    __s0 == refs(capabilities@), __out0@.len() == __it0.pos(), forall|i: int| 0 <= i < __it0.pos() ==> (#[trigger] capabilities@[i]).s_into(__out0@[i])
@*/
/// a claim redelegating proof n
pub open spec fn delegates(c: Capability, n: int) -> bool { c.resource@ == "prf:"@ + dec(n) && c.ability@ == "ucan/DELEGATE"@ && c.caveat is Object && redel_idx(c, n) }
#[verifier::spinoff_prover]
pub proof fn lem_prf_claim(n: usize, c: Value)
    ensures p_view("prf:"@ + dec(n as int), "ucan/DELEGATE"@, c) == Some(mk_view::<ProofSelection, ProofAction>(Resource::Resource { kind: ResourceUri::Scoped(ProofSelection::Index(n)) }, ProofAction::Delegate, c))
{
    reveal(p_view);
    reveal_strlit("prf:"); reveal_strlit("*"); reveal_strlit("my"); reveal_strlit("as"); reveal_strlit("prf"); axiom_url_prf_all();
    assert("prf"@ != "my"@ && "prf"@ != "as"@) by { assert("prf"@.len() == 3); }
    let t = "prf:"@ + dec(n as int); assert(t.subrange(0, 4) =~= "prf:"@); assert(t.subrange(4, t.len() as int) =~= dec(n as int));
    axiom_dec(n as int); axiom_url_prf(n as int);
}
/*@fn UcanBuilder::delegating_from
spec
    ensures match cid_of(authority, hasher) { None => r == self,
        Some(c) => r == (UcanBuilder { proofs: r.proofs, capabilities: r.capabilities, ..self }) && r.proofs@ == self.proofs@.push(mk_str(cid_text(c)))
            && r.capabilities@.len() == self.capabilities@.len() + 1 && r.capabilities@.drop_last() == self.capabilities@ && delegates(r.capabilities@.last(), self.proofs@.len() as int) }
proof after proof_index
    lem_prf_claim(proof_index, s_json_empty()); axiom_json_empty();
@*/
pub open spec fn sat_add(a: u64, b: u64) -> u64 { if a + b > u64::MAX { u64::MAX } else { (a + b) as u64 } }
/// the explicit expiration, else now plus the lifetime, else none
pub open spec fn exp_from(exp: Option<u64>, life: Option<u64>, r: Option<u64>) -> bool {
    match exp { Some(e) => r == Some(e), None => match life { None => r is None, Some(l) => exists|t: u64| #[trigger] clock_secs(t) && r == Some(sat_add(t, l)) } }
}
/*@fn UcanBuilder::implied_expiration
spec
    ensures exp_from(self.expiration, self.lifetime, r)
@*/
/*@fn UcanBuilder::build
spec
    ensures match r { Err(_) => self.issuer is None || self.audience is None,
        Ok(s) => self.issuer == Some(s.issuer) && self.audience is Some && s.audience@ == self.audience->0@ && s.capabilities@ == self.capabilities@ && exp_from(self.expiration, self.lifetime, s.expiration)
            && s.not_before == self.not_before && s.facts == self.facts && s.proofs@ == self.proofs@ && s.add_nonce == self.add_nonce }
@*/
/// a signed token is accepted inside its window where its issuer's DID denotes a key that accepts what the issuer signs
pub proof fn p_c15_valid<'a, K: KeyMaterial>(s: &Signable<'a, K>, u: &Ucan, ctors: Map<Seq<u8>, VFnPtr>, t: u64)
    requires signed_from(s, u), resolve(ctors, s.issuer.s_did()->0) is Some,
        forall|d: Seq<u8>, x: Vec<u8>| #[trigger] s.issuer.s_signs(d, Ok(x)) ==> resolve(ctors, s.issuer.s_did()->0)->0.s_verifies(d, x@),
        s.expiration is Some ==> t <= s.expiration->0, s.not_before is Some ==> s.not_before->0 <= t,
    ensures accepted(ctors, u, Some(t))
{ }
// =====================================================================================
// IPLD: signatures
// =====================================================================================
/*@type JwtSignatureAlgorithm@*/
/*@type VarsigPrefix@*/
/*@type Signature noclone@*/
/*@const NONSTANDARD_VARSIG_PREFIX@*/
/*@const ES256K_VARSIG_PREFIX@*/
/*@const BLS12381G1_VARSIG_PREFIX@*/
/*@const BLS12381G2_VARSIG_PREFIX@*/
/*@const EDDSA_VARSIG_PREFIX@*/
/*@const ES256_VARSIG_PREFIX@*/
/*@const ES384_VARSIG_PREFIX@*/
/*@const ES512_VARSIG_PREFIX@*/
/*@const RS256_VARSIG_PREFIX@*/
/*@const EIP191_VARSIG_PREFIX@*/
/// the JWT names of the algorithms (derived by strum: assumed, checked by the harness)
pub open spec fn alg_text(a: JwtSignatureAlgorithm) -> Seq<char> {
    match a { JwtSignatureAlgorithm::EdDSA => "EdDSA"@, JwtSignatureAlgorithm::RS256 => "RS256"@, JwtSignatureAlgorithm::ES256 => "ES256"@, JwtSignatureAlgorithm::ES384 => "ES384"@, JwtSignatureAlgorithm::ES512 => "ES512"@ }
}
pub open spec fn alg_named(s: Seq<char>, r: Result<JwtSignatureAlgorithm, Error>) -> bool { match r { Ok(a) => alg_text(a) == s, Err(_) => forall|a: JwtSignatureAlgorithm| #[trigger] alg_text(a) != s } }
impl VToString for JwtSignatureAlgorithm { open spec fn s_str(&self) -> Seq<char> { alg_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VFromStr for JwtSignatureAlgorithm { open spec fn s_from_str(s: Seq<char>, r: Result<JwtSignatureAlgorithm, Error>) -> bool { alg_named(s, r) } #[verifier::external_body] fn v_from_str(s: &str) -> (r: Result<JwtSignatureAlgorithm, Error>) { unimplemented!() } }
/// the prefix of each algorithm, and its number
pub open spec fn alg_prefix(a: JwtSignatureAlgorithm) -> VarsigPrefix {
    match a { JwtSignatureAlgorithm::EdDSA => VarsigPrefix::EdDSA, JwtSignatureAlgorithm::RS256 => VarsigPrefix::RS256, JwtSignatureAlgorithm::ES256 => VarsigPrefix::ES256, JwtSignatureAlgorithm::ES384 => VarsigPrefix::ES384, JwtSignatureAlgorithm::ES512 => VarsigPrefix::ES512 }
}
pub open spec fn prefix_alg(p: VarsigPrefix) -> Option<JwtSignatureAlgorithm> {
    match p { VarsigPrefix::EdDSA => Some(JwtSignatureAlgorithm::EdDSA), VarsigPrefix::RS256 => Some(JwtSignatureAlgorithm::RS256), VarsigPrefix::ES256 => Some(JwtSignatureAlgorithm::ES256), VarsigPrefix::ES384 => Some(JwtSignatureAlgorithm::ES384), VarsigPrefix::ES512 => Some(JwtSignatureAlgorithm::ES512), _ => None }
}
pub open spec fn prefix_no(p: VarsigPrefix) -> u64 {
    match p { VarsigPrefix::NonStandard => 0xd000, VarsigPrefix::ES256K => 0xd0e7, VarsigPrefix::BLS12381G1 => 0xd0ea, VarsigPrefix::BLS12381G2 => 0xd0eb, VarsigPrefix::EdDSA => 0xd0ed,
        VarsigPrefix::ES256 => 0xd01200, VarsigPrefix::ES384 => 0xd01201, VarsigPrefix::ES512 => 0xd01202, VarsigPrefix::RS256 => 0xd01205, VarsigPrefix::EIP191 => 0xd191 }
}
pub open spec fn no_prefix(n: u64, r: Result<VarsigPrefix, Error>) -> bool { match r { Ok(p) => prefix_no(p) == n, Err(_) => forall|p: VarsigPrefix| #[trigger] prefix_no(p) != n } }
/*@impl impl VTryFrom<JwtSignatureAlgorithm> for VarsigPrefix@*/
    open spec fn s_try_from(t: JwtSignatureAlgorithm, r: Result<VarsigPrefix, Error>) -> bool { r == Ok::<VarsigPrefix, Error>(alg_prefix(t)) }
/*@fn <VarsigPrefix as TryFrom<JwtSignatureAlgorithm>>::try_from
@*/
/*@endimpl@*/
/*@impl impl VTryFrom<VarsigPrefix> for JwtSignatureAlgorithm@*/
    open spec fn s_try_from(t: VarsigPrefix, r: Result<JwtSignatureAlgorithm, Error>) -> bool { match prefix_alg(t) { Some(a) => r == Ok::<JwtSignatureAlgorithm, Error>(a), None => r is Err } }
/*@fn <JwtSignatureAlgorithm as TryFrom<VarsigPrefix>>::try_from
@*/
/*@endimpl@*/
/*@impl impl VFromStr for VarsigPrefix@*/
    open spec fn s_from_str(s: Seq<char>, r: Result<VarsigPrefix, Error>) -> bool { match r { Ok(p) => exists|a: JwtSignatureAlgorithm| #[trigger] alg_text(a) == s && p == alg_prefix(a), Err(_) => forall|a: JwtSignatureAlgorithm| #[trigger] alg_text(a) != s } }
/*@fn <VarsigPrefix as FromStr>::from_str
@*/
/*@endimpl@*/
/*@impl impl VFrom<VarsigPrefix> for u64@*/
    open spec fn s_from(t: VarsigPrefix, r: u64) -> bool { r == prefix_no(t) }
/*@fn <u64 as From<VarsigPrefix>>::from
@*/
/*@endimpl@*/
/*@impl impl VTryFrom<u64> for VarsigPrefix@*/
    open spec fn s_try_from(t: u64, r: Result<VarsigPrefix, Error>) -> bool { no_prefix(t, r) }
/*@fn <VarsigPrefix as TryFrom<u64>>::try_from
@*/
/*@endimpl@*/
/// the envelope of a signature: prefix, length, bytes
pub open spec fn envelope(a: JwtSignatureAlgorithm, s: Seq<u8>) -> Seq<u8> { uv(prefix_no(alg_prefix(a)) as int) + uv(s.len() as int) + s }
/// what an envelope holds: the algorithm of its prefix, and as many bytes as its length says
pub open spec fn opens_to(b: Seq<u8>, a: JwtSignatureAlgorithm, s: Seq<u8>) -> bool {
    match uv_read(b) { None => false, Some((n, k)) => { let c = b.subrange(k, b.len() as int);
        n == prefix_no(alg_prefix(a)) && match uv_read(c) { None => false, Some((l, m)) => { let d = c.subrange(m, c.len() as int); l <= d.len() && s == d.subrange(0, l as int) } } } }
}
/*@fn Signature::decode
spec
    ensures match r { Ok((a, s)) => opens_to(self.0@, a, s@), Err(_) => forall|a: JwtSignatureAlgorithm, s: Seq<u8>| !opens_to(self.0@, a, s) }
@*/
/*@impl impl<T: VAsBytes> VTryFrom<(JwtSignatureAlgorithm, T)> for Signature@*/
    open spec fn s_try_from(t: (JwtSignatureAlgorithm, T), r: Result<Signature, Error>) -> bool { r is Ok && r->Ok_0.0@ == envelope(t.0, t.1.ab()) }
/*@fn <Signature as TryFrom<(JwtSignatureAlgorithm,T)>>::try_from
@*/
/*@endimpl@*/
pub proof fn p_c17_roundtrip(a: JwtSignatureAlgorithm, s: Seq<u8>) requires s.len() <= usize::MAX ensures opens_to(envelope(a, s), a, s)
{
    let n = prefix_no(alg_prefix(a)); let c = uv(s.len() as int) + s; let b = envelope(a, s);
    assert(b =~= uv(n as int) + c); axiom_uv(n as int, c); axiom_uv(s.len() as int, s);
    assert(b.subrange(uv(n as int).len() as int, b.len() as int) =~= c);
    assert(c.subrange(uv(s.len() as int).len() as int, c.len() as int) =~= s); assert(s.subrange(0, s.len() as int) =~= s);
}
/// an envelope holds one thing only
pub proof fn p_c17_unique(b: Seq<u8>, a: JwtSignatureAlgorithm, s: Seq<u8>, a2: JwtSignatureAlgorithm, s2: Seq<u8>) requires opens_to(b, a, s), opens_to(b, a2, s2) ensures a == a2, s == s2 { p_c17_distinct(a, a2); }
pub proof fn p_c17_distinct(a: JwtSignatureAlgorithm, b: JwtSignatureAlgorithm) ensures a != b ==> prefix_no(alg_prefix(a)) != prefix_no(alg_prefix(b)) { }
// =====================================================================================
// IPLD: principals
// =====================================================================================
/*@type Principle@*/
/*@const DID_IPLD_PREFIX@*/
/// the text of a principal
pub open spec fn principal_text(b: Seq<u8>) -> Seq<char> {
    if is_prefix8(s_did_ipld_prefix(), b) { s_did_prefix() + lossy_text(b.subrange(2, b.len() as int)) } else { s_did_key_prefix() + b58_enc(b) }
}
/// the bytes of the principal a DID denotes
pub open spec fn principal_of(s: Seq<char>) -> Option<Seq<u8>> {
    if is_prefix(s_did_key_prefix(), s) {
        match b58_dec(utf8(s.subrange(s_did_key_prefix().len() as int, s.len() as int))) { Some(b) => if is_prefix8(s_did_ipld_prefix(), b) { None } else { Some(b) }, None => None }
    } else if is_prefix(s_did_prefix(), s) { Some(s_did_ipld_prefix() + utf8(s.subrange(s_did_prefix().len() as int, s.len() as int))) } else { None }
}
pub open spec fn is_principal(s: Seq<char>, r: Result<Principle, Error>) -> bool { match principal_of(s) { Some(b) => r is Ok && r->Ok_0.0@ == b, None => r is Err } }
/*@impl impl VFromStr for Principle@*/
    open spec fn s_from_str(s: Seq<char>, r: Result<Principle, Error>) -> bool { is_principal(s, r) }
/*@fn <Principle as FromStr>::from_str
@*/
/*@endimpl@*/
/*@fn <Principle as Display>::fmt
spec
    ensures r is Ok, final(f)@ == old(f)@ + principal_text(self.0@)
@*/
/// std's to_string: format into an empty string, panic on an error
impl VToString for Principle { open spec fn s_str(&self) -> Seq<char> { principal_text(self.0@) }
    fn v_to_string(&self) -> (r: String) { let mut f = Formatter::v_new(); match self.v_fmt(&mut f) { Ok(_) => { let r = f.v_text(); proof { assert(Seq::<char>::empty() + principal_text(self.0@) =~= principal_text(self.0@)); } r }, Err(_) => v_panic() } } }
/// a principal prints the DID it was made from
#[verifier::spinoff_prover]
pub proof fn p_c18_print(s: Seq<char>) requires principal_of(s) is Some ensures principal_text(principal_of(s)->0) == s
{
    let k = s_did_key_prefix(); let d = s_did_prefix(); let x = s_did_ipld_prefix();
    reveal_strlit("did:"); reveal_strlit("did:key:z");
    if is_prefix(k, s) {
        let t = s.subrange(k.len() as int, s.len() as int); assert(s =~= k + t);
        axiom_b58_inv(utf8(t)); axiom_utf8(t); axiom_utf8(b58_enc(b58_dec(utf8(t))->0));
    } else {
        let t = s.subrange(d.len() as int, s.len() as int); assert(s =~= d + t); let b = x + utf8(t);
        assert(b.subrange(0, x.len() as int) =~= x); assert(b.subrange(2, b.len() as int) =~= utf8(t)); axiom_utf8(t);
    }
}
/// so different DIDs give different principals
pub proof fn p_c18_injective(s: Seq<char>, t: Seq<char>) requires principal_of(s) is Some, principal_of(s) == principal_of(t) ensures s == t { p_c18_print(s); p_c18_print(t); }
pub proof fn p_c18_did(s: Seq<char>) requires !is_prefix("did:"@, s) ensures principal_of(s) is None
{ reveal_strlit("did:"); reveal_strlit("did:key:z"); if is_prefix(s_did_key_prefix(), s) { assert(s.subrange(0, 4) =~= s.subrange(0, 9).subrange(0, 4)); assert(s.subrange(0, 4) =~= "did:"@); } }
// =====================================================================================
// IPLD: tokens
// =====================================================================================
/*@type UcanIpld noclone@*/
pub open spec fn cids_of(l: Seq<String>, c: Seq<Cid>) -> bool { c.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> cid_parse((#[trigger] l[i])@) == Some(c[i]) }
pub open spec fn texts_of(c: Seq<Cid>, l: Seq<String>) -> bool { c.len() == l.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] l[i])@ == cid_text(c[i]) }
/// no proofs are no proofs
pub open spec fn prf_list(u: &Ucan) -> Seq<String> { match u.payload.prf { Some(l) => l@, None => Seq::empty() } }
/// the IPLD form of a token
pub open spec fn ipld_form(u: &Ucan, i: &UcanIpld) -> bool {
    &&& i.v@ == u.payload.ucv@ && principal_of(u.payload.iss@) == Some(i.iss.0@) && principal_of(u.payload.aud@) == Some(i.aud.0@)
    &&& exists|a: JwtSignatureAlgorithm| #[trigger] alg_text(a) == u.header.alg@ && i.s.0@ == envelope(a, u.signature@)
    &&& i.cap == u.payload.cap && i.exp == u.payload.exp && i.nbf == u.payload.nbf && i.nnc == u.payload.nnc && i.fct == u.payload.fct
    &&& match i.prf { None => prf_list(u).len() == 0, Some(c) => c@.len() > 0 && cids_of(prf_list(u), c@) }
}
pub open spec fn convertible(u: &Ucan) -> bool {
    &&& principal_of(u.payload.iss@) is Some && principal_of(u.payload.aud@) is Some && (exists|a: JwtSignatureAlgorithm| #[trigger] alg_text(a) == u.header.alg@)
    &&& forall|i: int| 0 <= i < prf_list(u).len() ==> cid_parse((#[trigger] prf_list(u)[i])@) is Some
}
/// the token of an IPLD form
pub open spec fn token_form(i: &UcanIpld, u: &Ucan) -> bool {
    &&& u.payload.ucv@ == i.v@ && u.payload.iss@ == principal_text(i.iss.0@) && u.payload.aud@ == principal_text(i.aud.0@) && u.header.typ@ == "JWT"@
    &&& exists|a: JwtSignatureAlgorithm| #[trigger] alg_text(a) == u.header.alg@ && opens_to(i.s.0@, a, u.signature@)
    &&& u.payload.cap == i.cap && u.payload.exp == i.exp && u.payload.nbf == i.nbf && u.payload.nnc == i.nnc && u.payload.fct == i.fct
    &&& match u.payload.prf { None => i.prf is None, Some(l) => i.prf is Some && texts_of(i.prf->0@, l@) }
    &&& canonical(u)
}
/*@impl impl<'a> VTryFrom<&'a Ucan> for UcanIpld@*/
    open spec fn s_try_from(t: &'a Ucan, r: Result<UcanIpld, Error>) -> bool { match r { Ok(i) => convertible(t) && ipld_form(t, &i), Err(_) => !convertible(t) } }
/*@fn <UcanIpld as TryFrom<&Ucan>>::try_from
attr
    #[verifier::spinoff_prover]
params
    ucan: &'a Ucan
loop 0 inv
    __s0 == refs(prf_list(ucan)), prf@.len() == __it0.pos(), forall|j: int| 0 <= j < __it0.pos() ==> cid_parse((#[trigger] prf_list(ucan)[j])@) == Some(prf@[j])
@*/
/*@endimpl@*/
/*@impl impl<'a> VTryFrom<&'a UcanIpld> for Ucan@*/
    open spec fn s_try_from(t: &'a UcanIpld, r: Result<Ucan, Error>) -> bool {
        match r { Ok(u) => token_form(t, &u), Err(_) => (forall|a: JwtSignatureAlgorithm, s: Seq<u8>| !opens_to(t.s.0@, a, s)) || (exists|h: UcanHeader| b64_of(&h) is None) || (exists|p: UcanPayload| b64_of(&p) is None) } }
/*@fn <Ucan as TryFrom<&UcanIpld>>::try_from
params
    value: &'a UcanIpld
proof start
    reveal_strlit("."); assert(seq!['.'] =~= "."@);
loop 0 inv
    __s0 == refs(value.prf->0@), __out0@.len() == __it0.pos(), forall|j: int| 0 <= j < __it0.pos() ==> (#[trigger] __out0@[j])@ == cid_text(value.prf->0@[j])
@*/
/*@endimpl@*/
/// a token as this library writes it: signed over its own encoding, JWT, CIDs in their own text, no empty proof list
pub open spec fn canonical_token(u: &Ucan) -> bool {
    canonical(u) && u.header.typ@ == "JWT"@ && (match u.payload.prf { None => true, Some(l) => l@.len() > 0 }) && u.signature@.len() <= usize::MAX
        && forall|i: int, c: Cid| 0 <= i < prf_list(u).len() && cid_parse((#[trigger] prf_list(u)[i])@) == Some(c) ==> prf_list(u)[i]@ == #[trigger] cid_text(c)
}
/// both conversions together keep every field, and are the identity on canonical tokens
pub proof fn p_c16_roundtrip(u: &Ucan, i: &UcanIpld, w: &Ucan) requires ipld_form(u, i), token_form(i, w), u.signature@.len() <= usize::MAX
    ensures w.header.alg == u.header.alg, w.signature == u.signature, w.payload.ucv == u.payload.ucv, w.payload.iss == u.payload.iss, w.payload.aud == u.payload.aud, w.payload.cap == u.payload.cap,
        w.payload.exp == u.payload.exp, w.payload.nbf == u.payload.nbf, w.payload.nnc == u.payload.nnc, w.payload.fct == u.payload.fct,
        prf_list(w).len() == prf_list(u).len(), forall|k: int| 0 <= k < prf_list(u).len() ==> cid_parse((#[trigger] prf_list(w)[k])@) == cid_parse(prf_list(u)[k]@)
{
    p_c18_print(u.payload.iss@); p_c18_print(u.payload.aud@);
    let a = choose|a: JwtSignatureAlgorithm| #[trigger] alg_text(a) == u.header.alg@ && i.s.0@ == envelope(a, u.signature@);
    let b = choose|b: JwtSignatureAlgorithm| #[trigger] alg_text(b) == w.header.alg@ && opens_to(i.s.0@, b, w.signature@);
    p_c17_roundtrip(a, u.signature@); p_c17_unique(i.s.0@, a, u.signature@, b, w.signature@);
    assert forall|k: int| 0 <= k < prf_list(u).len() implies cid_parse((#[trigger] prf_list(w)[k])@) == cid_parse(prf_list(u)[k]@) by { let c = i.prf->0@[k]; axiom_cid_text(c); assert(cid_parse(prf_list(u)[k]@) == Some(c)); };
}
pub proof fn p_c16_identity(u: &Ucan, i: &UcanIpld, w: &Ucan) requires ipld_form(u, i), token_form(i, w), canonical_token(u) ensures *w == *u
{
    p_c16_roundtrip(u, i, w);
    assert(w.header == u.header);
    match u.payload.prf { None => { assert(w.payload.prf is None); }, Some(l) => {
        assert forall|k: int| 0 <= k < l@.len() implies w.payload.prf->0@[k] == l@[k] by { let c = i.prf->0@[k]; assert(cid_parse(prf_list(u)[k]@) == Some(c)); assert(prf_list(u)[k]@ == cid_text(c)); assert(prf_list(w)[k]@ == cid_text(c)); }
        assert(w.payload.prf->0@ =~= l@); assert(w.payload.prf == u.payload.prf); } }
    assert(w.payload == u.payload);
}
/// so its signature stays valid
pub proof fn p_c16_valid(u: &Ucan, i: &UcanIpld, w: &Ucan, ctors: Map<Seq<u8>, VFnPtr>, now_time: Option<u64>) requires ipld_form(u, i), token_form(i, w), canonical_token(u), accepted(ctors, u, now_time) ensures accepted(ctors, w, now_time) { p_c16_identity(u, i, w); }
// =====================================================================================
// The stores
// =====================================================================================
/*@type MemoryStore noclone@*/
impl MemoryStore {
    /// the blocks in the store
    pub open spec fn blocks(&self) -> Map<Cid, Vec<u8>> { self.dags.val()@ }
    /// nobody panicked while holding the lock
    pub open spec fn live(&self) -> bool { !self.dags.poisoned() }
}
/// the CID of a block: version 1, raw codec, BLAKE3-256
pub open spec fn block_cid(b: Seq<u8>) -> Cid { cid_v1(0x55, mhash(Code::Blake3_256, b)) }
/*@impl impl UcanStore for MemoryStore@*/
    open spec fn s_read<T: Decode<RawCodec>>(&self, cid: Cid, r: Result<Option<T>, Error>) -> bool {
        if !self.live() { r is Err } else if !self.blocks().contains_key(cid) { r == Ok::<Option<T>, Error>(None) }
        else { match r { Ok(Some(t)) => T::s_dec(self.blocks()[cid]@, Ok(t)), Ok(None) => false, Err(e) => T::s_dec(self.blocks()[cid]@, Err(e)) } }
    }
    open spec fn s_write<T: Encode<RawCodec>>(&self, t: T, r: Result<Cid, Error>, post: &Self) -> bool {
        &&& post.live() == self.live()
        &&& match t.s_enc() {
            Some(b) if self.live() => r == Ok::<Cid, Error>(block_cid(b)) && put(self.blocks(), b, post.blocks()),
            _ => r is Err && post.blocks() == self.blocks(),
        }
    }
/*@fn <MemoryStore as UcanStore<RawCodec>>::read
@*/
/*@fn <MemoryStore as UcanStore<RawCodec>>::write
@*/
/*@endimpl@*/
pub open spec fn put(m: Map<Cid, Vec<u8>>, b: Seq<u8>, n: Map<Cid, Vec<u8>>) -> bool { exists|v: Vec<u8>| v@ == b && n == #[trigger] m.insert(block_cid(b), v) }
/// idealised hash: no two blocks share a CID
pub open spec fn no_collisions() -> bool { forall|a: Seq<u8>, b: Seq<u8>| #[trigger] block_cid(a) == #[trigger] block_cid(b) ==> a == b }
/// every block is filed under its own CID
pub open spec fn filed(m: Map<Cid, Vec<u8>>) -> bool { forall|c: Cid| #[trigger] m.contains_key(c) ==> c == block_cid(m[c]@) }
/// one call: a read, a failed write, or a write of some block
pub open spec fn store_step(a: &MemoryStore, b: &MemoryStore) -> bool { a.live() == b.live() && (b.blocks() == a.blocks() || exists|w: Seq<u8>| #[trigger] put(a.blocks(), w, b.blocks())) }
/// a history of calls from a new store
pub open spec fn store_history(h: Seq<MemoryStore>) -> bool { h.len() > 0 && h[0].live() && h[0].blocks() == Map::<Cid, Vec<u8>>::empty() && forall|i: int| 0 <= i < h.len() - 1 ==> #[trigger] store_step(&h[i], &h[i + 1]) }
pub proof fn lem_put(m: Map<Cid, Vec<u8>>, b: Seq<u8>, n: Map<Cid, Vec<u8>>) requires put(m, b, n), filed(m), no_collisions()
    ensures filed(n), n.contains_key(block_cid(b)), n[block_cid(b)]@ == b, forall|c: Cid| #[trigger] m.contains_key(c) ==> n.contains_key(c) && n[c] == m[c]
{
    let v = choose|v: Vec<u8>| v@ == b && n == #[trigger] m.insert(block_cid(b), v);
    assert forall|c: Cid| #[trigger] m.contains_key(c) implies n.contains_key(c) && n[c] == m[c] by { if c == block_cid(b) { assert(m[c]@ == b); assert(m[c] == v); } }
}
pub proof fn lem_history(h: Seq<MemoryStore>, i: int) requires store_history(h), 0 <= i < h.len(), no_collisions() ensures filed(h[i].blocks()), h[i].live() decreases i
{
    if i > 0 { lem_history(h, i - 1); let a = h[i - 1]; assert(store_step(&a, &h[i - 1 + 1])); if h[i].blocks() != a.blocks() { let w = choose|w: Seq<u8>| #[trigger] put(a.blocks(), w, h[i].blocks()); lem_put(a.blocks(), w, h[i].blocks()); } }
}
pub proof fn lem_kept(h: Seq<MemoryStore>, i: int, j: int, c: Cid) requires store_history(h), 0 <= i <= j < h.len(), no_collisions(), h[i].blocks().contains_key(c)
    ensures h[j].blocks().contains_key(c), h[j].blocks()[c] == h[i].blocks()[c] decreases j - i
{
    if i < j {
        lem_kept(h, i, j - 1, c); lem_history(h, j - 1); let a = h[j - 1]; assert(store_step(&a, &h[j - 1 + 1]));
        if h[j].blocks() != a.blocks() { let w = choose|w: Seq<u8>| #[trigger] put(a.blocks(), w, h[j].blocks()); lem_put(a.blocks(), w, h[j].blocks()); }
    }
}
/// every write is a step, and answers with the CID of the bytes
pub proof fn p_c19_write(a: &MemoryStore, t: Seq<char>, r: Result<Cid, Error>, b: &MemoryStore) requires a.s_put(t, r, b), a.live()
    ensures store_step(a, b), r == Ok::<Cid, Error>(block_cid(utf8(t))), put(a.blocks(), utf8(t), b.blocks())
{ }
pub proof fn p_c19_block_write<T: Encode<RawCodec>>(a: &MemoryStore, t: T, r: Result<Cid, Error>, b: &MemoryStore) requires a.s_write(t, r, b) ensures store_step(a, b), r is Ok && t.s_enc() is Some ==> r->Ok_0 == block_cid(t.s_enc()->0) { }
/// what was written is read back unchanged, whatever was written in between
pub proof fn p_c19_read_back(h: Seq<MemoryStore>, i: int, j: int, t: Seq<char>, r: Result<Cid, Error>)
    requires store_history(h), no_collisions(), 0 <= i < j < h.len(), h[i].s_put(t, r, &h[i + 1])
    ensures r is Ok, h[j].s_token(r->Ok_0, t), forall|u: Seq<char>| #[trigger] h[j].s_token(r->Ok_0, u) ==> u == t, !h[j].s_no_token(r->Ok_0)
{
    lem_history(h, i); lem_history(h, j); p_c19_write(&h[i], t, r, &h[i + 1]); lem_put(h[i].blocks(), utf8(t), h[i + 1].blocks());
    let c = r->Ok_0; lem_kept(h, i + 1, j, c);
    let v = h[j].blocks()[c]; let q: Result<Option<Ipld>, Error> = Ok(Some(Ipld::Bytes(v)));
    assert(h[j].s_read(c, q)); assert(token_block(q) == Some(t));
}
/// a CID that is not in the store, or of another codec, yields no token
pub proof fn p_c19_missing(s: &MemoryStore, c: Cid, t: Seq<char>) requires s.live(), !s.blocks().contains_key(c) || c.s_codec() != 0x55 ensures !s.s_token(c, t), s.s_no_token(c)
{ if c.s_codec() == 0x55 { assert(s.s_read(c, Ok::<Option<Ipld>, Error>(None))); } }
/// only what was written is in the store
pub proof fn p_c19_only_written(h: Seq<MemoryStore>, j: int, c: Cid) requires store_history(h), 0 <= j < h.len(), h[j].blocks().contains_key(c)
    ensures exists|i: int, w: Seq<u8>| 0 <= i < j && #[trigger] put(h[i].blocks(), w, h[i + 1].blocks()) && c == block_cid(w) decreases j
{
    if j > 0 {
        let a = h[j - 1]; assert(store_step(&a, &h[j - 1 + 1]));
        if a.blocks().contains_key(c) { p_c19_only_written(h, j - 1, c); }
        else { let w = choose|w: Seq<u8>| #[trigger] put(a.blocks(), w, h[j].blocks()); assert(put(h[j - 1].blocks(), w, h[j - 1 + 1].blocks())); }
    }
}
/// the CID a token reports for itself is the one it is filed under
pub proof fn p_c19_own_cid(u: &Ucan, t: Seq<char>, a: &MemoryStore, r: Result<Cid, Error>, b: &MemoryStore) requires token_text(u) == Some(t), a.live(), a.s_put(t, r, b)
    ensures cid_of(u, Some(Code::Blake3_256)) == Some(r->Ok_0), r is Ok { p_c19_write(a, t, r, b); }
// =====================================================================================
// Key support: Ed25519, P-256, RSA
// =====================================================================================
/*@const ED25519_MAGIC_BYTES@*/
/*@const P256_MAGIC_BYTES@*/
/*@const RSA_MAGIC_BYTES@*/
/// the did:key text of a public key
pub open spec fn did_key(magic: Seq<u8>, b: Seq<u8>) -> Seq<char> { "did:key:z"@ + b58_enc(magic + b) }
/// a trait object is the key it was made from
pub open spec fn is_key<K: KeyMaterial>(k: &K, b: &dyn KeyMaterial) -> bool {
    b.s_alg() == k.s_alg() && b.s_did() == k.s_did() && (forall|p: Seq<u8>, x: Result<Vec<u8>, Error>| #[trigger] b.s_signs(p, x) == k.s_signs(p, x)) && (forall|p: Seq<u8>, g: Seq<u8>| #[trigger] b.s_verifies(p, g) == k.s_verifies(p, g))
}
pub mod ed25519_dep {
// ed25519-zebra
use super::*;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ed25519PublicKey { }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ed25519PrivateKey { }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Signature { }
pub uninterp spec fn ed_key(b: Seq<u8>) -> Option<Ed25519PublicKey>;
pub uninterp spec fn ed_bytes(k: Ed25519PublicKey) -> Seq<u8>;
pub uninterp spec fn ed_pub(k: Ed25519PrivateKey) -> Ed25519PublicKey;
pub uninterp spec fn ed_sign(k: Ed25519PrivateKey, m: Seq<u8>) -> Signature;
pub uninterp spec fn ed_sig(b: Seq<u8>) -> Option<Signature>;
pub uninterp spec fn ed_sig_bytes(g: Signature) -> Seq<u8>;
/// the scheme accepts
pub uninterp spec fn ed_ok(k: Ed25519PublicKey, m: Seq<u8>, g: Signature) -> bool;
#[verifier::external_body] pub broadcast proof fn axiom_ed_key(k: Ed25519PublicKey) ensures ed_key(#[trigger] ed_bytes(k)) == Some(k) { }
#[verifier::external_body] pub broadcast proof fn axiom_ed_sig(g: Signature) ensures ed_sig(#[trigger] ed_sig_bytes(g)) == Some(g) { }
#[verifier::external_body] pub broadcast proof fn axiom_ed_ok(k: Ed25519PrivateKey, m: Seq<u8>) ensures #![trigger ed_sign(k, m)] ed_ok(ed_pub(k), m, ed_sign(k, m)) { }
impl<'a> VTryFrom<&'a [u8]> for Ed25519PublicKey { open spec fn s_try_from(t: &'a [u8], r: Result<Ed25519PublicKey, Error>) -> bool { match ed_key(t@) { Some(k) => r == Ok::<Ed25519PublicKey, Error>(k), None => r is Err } } #[verifier::external_body] fn v_try_from(t: &'a [u8]) -> (r: Result<Ed25519PublicKey, Error>) { unimplemented!() } }
impl<'a> VTryFrom<&'a [u8]> for Signature { open spec fn s_try_from(t: &'a [u8], r: Result<Signature, Error>) -> bool { match ed_sig(t@) { Some(k) => r == Ok::<Signature, Error>(k), None => r is Err } } #[verifier::external_body] fn v_try_from(t: &'a [u8]) -> (r: Result<Signature, Error>) { unimplemented!() } }
impl VFrom<Signature> for [u8; 64] { open spec fn s_from(t: Signature, r: [u8; 64]) -> bool { r@ == ed_sig_bytes(t) } #[verifier::external_body] fn v_from(t: Signature) -> (r: [u8; 64]) { unimplemented!() } }
impl VAsBytes for Ed25519PublicKey { open spec fn ab(&self) -> Seq<u8> { ed_bytes(*self) } #[verifier::external_body] fn v_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl Ed25519PublicKey { #[verifier::external_body] pub fn verify(&self, g: &Signature, m: &[u8]) -> (r: Result<(), Error>) ensures r is Ok <==> ed_ok(*self, m@, *g) { unimplemented!() } }
impl Ed25519PrivateKey { #[verifier::external_body] pub fn sign(&self, m: &[u8]) -> (r: Signature) ensures r == ed_sign(*self, m@) { unimplemented!() } }
}
pub mod ed25519 {
use super::*;
use super::ed25519_dep::{Signature, Ed25519PublicKey, Ed25519PrivateKey, ed_key, ed_bytes, ed_pub, ed_sign, ed_sig, ed_sig_bytes, ed_ok, axiom_ed_key, axiom_ed_sig, axiom_ed_ok};
broadcast use {g_axioms, g_deps, axiom_ed_key, axiom_ed_sig, axiom_ed_ok};
/*@type Ed25519KeyMaterial noclone noeq@*/
/*@impl impl KeyMaterial for Ed25519KeyMaterial@*/
    open spec fn s_alg(&self) -> Seq<char> { "EdDSA"@ }
    open spec fn s_did(&self) -> Option<Seq<char>> { Some(did_key(s_ed25519_magic_bytes(), ed_bytes(self.0))) }
    open spec fn s_signs(&self, p: Seq<u8>, r: Result<Vec<u8>, Error>) -> bool { match self.1 { Some(k) => r is Ok && r->Ok_0@ == ed_sig_bytes(ed_sign(k, p)), None => r is Err } }
    open spec fn s_verifies(&self, p: Seq<u8>, g: Seq<u8>) -> bool { match ed_sig(g) { Some(s) => ed_ok(self.0, p, s), None => false } }
/*@fn <Ed25519KeyMaterial as KeyMaterial>::get_jwt_algorithm_name
@*/
/*@fn <Ed25519KeyMaterial as KeyMaterial>::get_did
@*/
/*@fn <Ed25519KeyMaterial as KeyMaterial>::sign
@*/
/*@fn <Ed25519KeyMaterial as KeyMaterial>::verify
@*/
/*@endimpl@*/
/*@fn bytes_to_ed25519_key
spec
    ensures match ed_key(bytes@) { Some(k) => r is Ok && is_key(&Ed25519KeyMaterial(k, None), &*r->Ok_0), None => r is Err }
@*/
}
pub mod p256_dep {
// p256 (ECDSA over P-256 with SHA-256)
use super::*;
#[verifier::external_body] pub struct P256PublicKey { }
#[verifier::external_body] pub struct P256PrivateKey { }
#[verifier::external_body] pub struct Signature { }
#[verifier::external_body] pub struct EncodedPoint { }
pub mod ecdsa { pub use super::Signature; }
pub uninterp spec fn p256_key(b: Seq<u8>) -> Option<P256PublicKey>;
/// the SEC1 encoding, compressed or not
pub uninterp spec fn p256_bytes(k: P256PublicKey, compressed: bool) -> Seq<u8>;
pub uninterp spec fn p256_pub(k: P256PrivateKey) -> P256PublicKey;
pub uninterp spec fn p256_sign(k: P256PrivateKey, m: Seq<u8>) -> Signature;
pub uninterp spec fn p256_sig(b: Seq<u8>) -> Option<Signature>;
pub uninterp spec fn p256_sig_bytes(g: Signature) -> Seq<u8>;
/// the scheme accepts
pub uninterp spec fn p256_ok(k: P256PublicKey, m: Seq<u8>, g: Signature) -> bool;
#[verifier::external_body] pub broadcast proof fn axiom_p256_key(k: P256PublicKey, c: bool) ensures p256_key(#[trigger] p256_bytes(k, c)) == Some(k) { }
#[verifier::external_body] pub broadcast proof fn axiom_p256_sig(g: Signature) ensures p256_sig(#[trigger] p256_sig_bytes(g)) == Some(g) { }
#[verifier::external_body] pub broadcast proof fn axiom_p256_ok(k: P256PrivateKey, m: Seq<u8>) ensures #![trigger p256_sign(k, m)] p256_ok(p256_pub(k), m, p256_sign(k, m)) { }
impl<'a> VTryFrom<&'a [u8]> for P256PublicKey { open spec fn s_try_from(t: &'a [u8], r: Result<P256PublicKey, Error>) -> bool { match p256_key(t@) { Some(k) => r == Ok::<P256PublicKey, Error>(k), None => r is Err } } #[verifier::external_body] fn v_try_from(t: &'a [u8]) -> (r: Result<P256PublicKey, Error>) { unimplemented!() } }
impl Signature { #[verifier::external_body] pub fn from_slice(t: &[u8]) -> (r: Result<Signature, Error>) ensures match p256_sig(t@) { Some(k) => r == Ok::<Signature, Error>(k), None => r is Err } { unimplemented!() } }
impl<'a> VTryFrom<&'a [u8]> for Signature { open spec fn s_try_from(t: &'a [u8], r: Result<Signature, Error>) -> bool { match p256_sig(t@) { Some(k) => r == Ok::<Signature, Error>(k), None => r is Err } } #[verifier::external_body] fn v_try_from(t: &'a [u8]) -> (r: Result<Signature, Error>) { unimplemented!() } }
impl Signature { #[verifier::external_body] pub fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == p256_sig_bytes(*self) { unimplemented!() } }
impl EncodedPoint { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn to_bytes(&self) -> (r: Box<[u8]>) ensures r@ == self@ { unimplemented!() } }
impl P256PublicKey {
    #[verifier::external_body] pub fn to_encoded_point(&self, compress: bool) -> (r: EncodedPoint) ensures r@ == p256_bytes(*self, compress) { unimplemented!() }
    #[verifier::external_body] pub fn verify(&self, m: &[u8], g: &Signature) -> (r: Result<(), Error>) ensures r is Ok <==> p256_ok(*self, m@, *g) { unimplemented!() }
}
impl P256PrivateKey { #[verifier::external_body] pub fn sign(&self, m: &[u8]) -> (r: Signature) ensures r == p256_sign(*self, m@) { unimplemented!() } }
}
pub mod p256 {
use super::*;
use super::p256_dep::{ecdsa, Signature, P256PublicKey, P256PrivateKey, p256_key, p256_bytes, p256_pub, p256_sign, p256_sig, p256_sig_bytes, p256_ok, axiom_p256_key, axiom_p256_sig, axiom_p256_ok};
broadcast use {g_axioms, g_deps, axiom_p256_key, axiom_p256_sig, axiom_p256_ok};
/*@type P256KeyMaterial noclone noeq@*/
/*@impl impl KeyMaterial for P256KeyMaterial@*/
    open spec fn s_alg(&self) -> Seq<char> { "ES256"@ }
    open spec fn s_did(&self) -> Option<Seq<char>> { Some(did_key(s_p256_magic_bytes(), p256_bytes(self.0, true))) }
    open spec fn s_signs(&self, p: Seq<u8>, r: Result<Vec<u8>, Error>) -> bool { match self.1 { Some(k) => r is Ok && r->Ok_0@ == p256_sig_bytes(p256_sign(k, p)), None => r is Err } }
    open spec fn s_verifies(&self, p: Seq<u8>, g: Seq<u8>) -> bool { match p256_sig(g) { Some(s) => p256_ok(self.0, p, s), None => false } }
/*@fn <P256KeyMaterial as KeyMaterial>::get_jwt_algorithm_name
@*/
/*@fn <P256KeyMaterial as KeyMaterial>::get_did
@*/
/*@fn <P256KeyMaterial as KeyMaterial>::sign
@*/
/*@fn <P256KeyMaterial as KeyMaterial>::verify
@*/
/*@endimpl@*/
/*@fn bytes_to_p256_key
spec
    ensures match p256_key(bytes@) { Some(k) => r is Ok && is_key(&P256KeyMaterial(k, None), &*r->Ok_0), None => r is Err }
@*/
}
pub mod rsa_dep {
// rsa, sha2
use super::*;
#[verifier::external_body] pub struct RsaPublicKey { }
#[verifier::external_body] pub struct RsaPrivateKey { }
#[verifier::external_body] pub struct Document { }
#[verifier::external_body] pub struct Sha256 { }
#[verifier::external_body] pub struct Pkcs1v15Sign { }
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
/// the padding of a digest made with D
pub uninterp spec fn pkcs1v15<D>() -> Pkcs1v15Sign;
pub uninterp spec fn rsa_key(b: Seq<u8>) -> Option<RsaPublicKey>;
/// the PKCS#1 encoding
pub uninterp spec fn rsa_bytes(k: RsaPublicKey) -> Option<Seq<u8>>;
pub uninterp spec fn rsa_pub(k: RsaPrivateKey) -> RsaPublicKey;
/// signing fails only if the key cannot hold the digest
pub uninterp spec fn rsa_sign(k: RsaPrivateKey, pad: Pkcs1v15Sign, h: Seq<u8>) -> Option<Seq<u8>>;
/// the scheme accepts
pub uninterp spec fn rsa_ok(k: RsaPublicKey, pad: Pkcs1v15Sign, h: Seq<u8>, g: Seq<u8>) -> bool;
#[verifier::external_body] pub broadcast proof fn axiom_rsa_key(k: RsaPublicKey) ensures match #[trigger] rsa_bytes(k) { Some(b) => match rsa_key(b) { Some(j) => j == k, None => true }, None => true } { }
#[verifier::external_body] pub broadcast proof fn axiom_rsa_ok(k: RsaPrivateKey, pad: Pkcs1v15Sign, h: Seq<u8>) ensures match #[trigger] rsa_sign(k, pad, h) { Some(g) => rsa_ok(rsa_pub(k), pad, h, g), None => true } { }
impl Document { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
impl Sha256 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Sha256) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: [u8; 32]) ensures r@ == sha256(self@) { unimplemented!() }
    #[verifier::external_body] pub fn digest(b: &[u8]) -> (r: [u8; 32]) ensures r@ == sha256(b@) { unimplemented!() }
}
impl Pkcs1v15Sign { #[verifier::external_body] pub fn new<D>() -> (r: Pkcs1v15Sign) ensures r == pkcs1v15::<D>() { unimplemented!() } }
impl RsaPublicKey {
    #[verifier::external_body] pub fn from_pkcs1_der(b: &[u8]) -> (r: Result<RsaPublicKey, Error>) ensures match rsa_key(b@) { Some(k) => r == Ok::<RsaPublicKey, Error>(k), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn to_pkcs1_der(&self) -> (r: Result<Document, Error>) ensures match rsa_bytes(*self) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn verify(&self, pad: Pkcs1v15Sign, h: &[u8], g: &[u8]) -> (r: Result<(), Error>) ensures r is Ok <==> rsa_ok(*self, pad, h@, g@) { unimplemented!() }
}
impl RsaPrivateKey { #[verifier::external_body] pub fn sign(&self, pad: Pkcs1v15Sign, h: &[u8]) -> (r: Result<Vec<u8>, Error>) ensures match rsa_sign(*self, pad, h@) { Some(g) => r is Ok && r->Ok_0@ == g, None => r is Err } { unimplemented!() } }
}
pub mod rsa {
use super::*;
use super::rsa_dep::{RsaPublicKey, RsaPrivateKey, Document, Sha256, Pkcs1v15Sign, sha256, pkcs1v15, rsa_key, rsa_bytes, rsa_pub, rsa_sign, rsa_ok, axiom_rsa_key, axiom_rsa_ok};
broadcast use {g_axioms, g_deps, axiom_rsa_key, axiom_rsa_ok};
/*@type RsaKeyMaterial noclone noeq@*/
/*@impl impl KeyMaterial for RsaKeyMaterial@*/
    open spec fn s_alg(&self) -> Seq<char> { "RS256"@ }
    open spec fn s_did(&self) -> Option<Seq<char>> { Some(match rsa_bytes(self.0) { Some(b) => did_key(s_rsa_magic_bytes(), b), None => did_key(seq![], seq![]) }) }
    open spec fn s_signs(&self, p: Seq<u8>, r: Result<Vec<u8>, Error>) -> bool {
        match self.1 { Some(k) => match rsa_sign(k, pkcs1v15::<Sha256>(), sha256(p)) { Some(g) => r is Ok && r->Ok_0@ == g, None => r is Err }, None => r is Err }
    }
    open spec fn s_verifies(&self, p: Seq<u8>, g: Seq<u8>) -> bool { rsa_ok(self.0, pkcs1v15::<Sha256>(), sha256(p), g) }
/*@fn <RsaKeyMaterial as KeyMaterial>::get_jwt_algorithm_name
@*/
/*@fn <RsaKeyMaterial as KeyMaterial>::get_did
@*/
/*@fn <RsaKeyMaterial as KeyMaterial>::sign
@*/
/*@fn <RsaKeyMaterial as KeyMaterial>::verify
@*/
/*@endimpl@*/
/*@fn bytes_to_rsa_key
spec
    ensures match rsa_key(bytes@) { Some(k) => r is Ok && is_key(&RsaKeyMaterial(k, None), &*r->Ok_0), None => r is Err }
@*/
}
/// what a did:key text resolves to
pub proof fn lem_did_resolve(ctors: Map<Seq<u8>, VFnPtr>, magic: Seq<u8>, b: Seq<u8>) requires magic.len() == 2, ctors.contains_key(magic)
    ensures resolve(ctors, did_key(magic, b)) == ctors[magic].s_call(b)
{
    reveal_strlit("did:key:z");
    let d = did_key(magic, b);
    assert(d.subrange(9, d.len() as int) =~= b58_enc(magic + b));
    assert((magic + b).subrange(0, 2) =~= magic); assert((magic + b).subrange(2, (magic + b).len() as int) =~= b);
    assert(d.subrange(0, 9) =~= "did:key:z"@);
}
/// a registered constructor is the function of that name
pub open spec fn is_ed25519_ctor(c: VFnPtr) -> bool { forall|b: Seq<u8>| match #[trigger] c.s_call(b) { Some(x) => ed25519_dep::ed_key(b) is Some && is_key(&ed25519::Ed25519KeyMaterial(ed25519_dep::ed_key(b)->0, None), &*x), None => ed25519_dep::ed_key(b) is None } }
pub open spec fn is_p256_ctor(c: VFnPtr) -> bool { forall|b: Seq<u8>| match #[trigger] c.s_call(b) { Some(x) => p256_dep::p256_key(b) is Some && is_key(&p256::P256KeyMaterial(p256_dep::p256_key(b)->0, None), &*x), None => p256_dep::p256_key(b) is None } }
pub open spec fn is_rsa_ctor(c: VFnPtr) -> bool { forall|b: Seq<u8>| match #[trigger] c.s_call(b) { Some(x) => rsa_dep::rsa_key(b) is Some && is_key(&rsa::RsaKeyMaterial(rsa_dep::rsa_key(b)->0, None), &*x), None => rsa_dep::rsa_key(b) is None } }
/// the resolved key has the same name and algorithm, and accepts the same signatures
pub open spec fn same_public<K: KeyMaterial>(k: &K, o: Option<Box<dyn KeyMaterial>>) -> bool { match o { Some(x) => (*x).s_alg() == k.s_alg() && (*x).s_did() == k.s_did() && forall|p: Seq<u8>, g: Seq<u8>| #[trigger] (*x).s_verifies(p, g) == k.s_verifies(p, g), None => false } }
pub proof fn p_c21_resolve_ed25519(k: ed25519::Ed25519KeyMaterial, ctors: Map<Seq<u8>, VFnPtr>) requires ctors.contains_key(s_ed25519_magic_bytes()), is_ed25519_ctor(ctors[s_ed25519_magic_bytes()])
    ensures k.s_did() is Some, same_public(&k, resolve(ctors, k.s_did()->0))
{ broadcast use ed25519_dep::axiom_ed_key; lem_did_resolve(ctors, s_ed25519_magic_bytes(), ed25519_dep::ed_bytes(k.0)); }
pub proof fn p_c21_resolve_p256(k: p256::P256KeyMaterial, ctors: Map<Seq<u8>, VFnPtr>) requires ctors.contains_key(s_p256_magic_bytes()), is_p256_ctor(ctors[s_p256_magic_bytes()])
    ensures k.s_did() is Some, same_public(&k, resolve(ctors, k.s_did()->0))
{ broadcast use p256_dep::axiom_p256_key; lem_did_resolve(ctors, s_p256_magic_bytes(), p256_dep::p256_bytes(k.0, true)); }
/// for keys the PKCS#1 codec writes and reads (the rsa crate refuses to read keys beyond its size limits)
pub proof fn p_c21_resolve_rsa(k: rsa::RsaKeyMaterial, ctors: Map<Seq<u8>, VFnPtr>) requires ctors.contains_key(s_rsa_magic_bytes()), is_rsa_ctor(ctors[s_rsa_magic_bytes()]), rsa_dep::rsa_bytes(k.0) is Some, rsa_dep::rsa_key(rsa_dep::rsa_bytes(k.0)->0) is Some
    ensures k.s_did() is Some, same_public(&k, resolve(ctors, k.s_did()->0))
{ broadcast use rsa_dep::axiom_rsa_key; lem_did_resolve(ctors, s_rsa_magic_bytes(), rsa_dep::rsa_bytes(k.0)->0); }
/// no two kinds of key share a type prefix
pub proof fn p_c21_prefixes() ensures s_ed25519_magic_bytes() != s_p256_magic_bytes(), s_ed25519_magic_bytes() != s_rsa_magic_bytes(), s_p256_magic_bytes() != s_rsa_magic_bytes()
{ assert(s_ed25519_magic_bytes()[0] == 0xed); assert(s_p256_magic_bytes()[0] == 0x80); assert(s_rsa_magic_bytes()[0] == 0x85); }
/// what a key pair signs, it verifies; without the private part it refuses
pub proof fn p_c21_sign_ed25519(k: ed25519::Ed25519KeyMaterial, p: Seq<u8>, r: Result<Vec<u8>, Error>) requires k.s_signs(p, r), k.1 matches Some(s) ==> ed25519_dep::ed_pub(s) == k.0
    ensures match k.1 { Some(_) => r is Ok && k.s_verifies(p, r->Ok_0@), None => r is Err } { broadcast use {ed25519_dep::axiom_ed_sig, ed25519_dep::axiom_ed_ok}; }
pub proof fn p_c21_sign_p256(k: p256::P256KeyMaterial, p: Seq<u8>, r: Result<Vec<u8>, Error>) requires k.s_signs(p, r), k.1 matches Some(s) ==> p256_dep::p256_pub(s) == k.0
    ensures match k.1 { Some(_) => r is Ok && k.s_verifies(p, r->Ok_0@), None => r is Err } { broadcast use {p256_dep::axiom_p256_sig, p256_dep::axiom_p256_ok}; }
pub proof fn p_c21_sign_rsa(k: rsa::RsaKeyMaterial, p: Seq<u8>, r: Result<Vec<u8>, Error>) requires k.s_signs(p, r), k.1 matches Some(s) ==> rsa_dep::rsa_pub(s) == k.0
    ensures r matches Ok(g) ==> k.s_verifies(p, g@), k.1 is None ==> r is Err { broadcast use rsa_dep::axiom_rsa_ok; }
/// nothing is accepted that the scheme refuses for exactly that payload
pub proof fn p_c21_only(e: ed25519::Ed25519KeyMaterial, q: p256::P256KeyMaterial, a: rsa::RsaKeyMaterial, p: Seq<u8>, g: Seq<u8>)
    ensures e.s_verifies(p, g) ==> ed25519_dep::ed_sig(g) is Some && ed25519_dep::ed_ok(e.0, p, ed25519_dep::ed_sig(g)->0), q.s_verifies(p, g) ==> p256_dep::p256_sig(g) is Some && p256_dep::p256_ok(q.0, p, p256_dep::p256_sig(g)->0),
        a.s_verifies(p, g) ==> rsa_dep::rsa_ok(a.0, rsa_dep::pkcs1v15::<rsa_dep::Sha256>(), rsa_dep::sha256(p), g) { }
/// each key names its own algorithm
pub proof fn p_c21_names(e: ed25519::Ed25519KeyMaterial, q: p256::P256KeyMaterial, a: rsa::RsaKeyMaterial)
    ensures e.s_alg() == alg_text(JwtSignatureAlgorithm::EdDSA), q.s_alg() == alg_text(JwtSignatureAlgorithm::ES256), a.s_alg() == alg_text(JwtSignatureAlgorithm::RS256) { }
} // verus!
fn main() {}
