# JSON documents as trees (what simdjson's on-demand values stand for).
spec(r"""
pub enum Json { Null, Bool(bool), Int(int), Num(Fl), Str(Seq<int>), Arr(Seq<Json>), Obj(Seq<Pair<Seq<int>, Json>>) }
pub type JObj = Seq<Pair<Seq<int>, Json>>;
// the value of a key
pub open spec fn jfind(s: JObj, k: Seq<int>, i: int) -> Option<Json> decreases s.len() - i {
    if i < 0 || i >= s.len() { None } else if s[i].first == k { Some(s[i].second) } else { jfind(s, k, i + 1) }
}
pub open spec fn jget(s: JObj, k: Seq<int>) -> Option<Json> { jfind(s, k, 0) }
pub proof fn lemma_jfind(s: JObj, k: Seq<int>, i: int) requires 0 <= i
    ensures jfind(s, k, i).is_some() ==> decreases_to!(s => jfind(s, k, i)->0), jfind(s, k, i).is_none() ==> forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).first != k
    decreases s.len() - i
{ if i < s.len() && s[i].first != k { lemma_jfind(s, k, i + 1); } }
// what the accessors give: nothing stands for an error, on which simdjson throws
pub open spec fn jr_oat(o: Option<JObj>, k: Seq<int>) -> Option<Json> { match o { Some(s) => jget(s, k), _ => None } }
pub open spec fn jr_at(o: Option<Json>, k: Seq<int>) -> Option<Json> { match o { Some(Json::Obj(s)) => jget(s, k), _ => None } }
pub open spec fn jr_str(o: Option<Json>) -> Option<Seq<int>> { match o { Some(Json::Str(s)) => Some(s), _ => None } }
pub open spec fn jr_bool(o: Option<Json>) -> Option<bool> { match o { Some(Json::Bool(b)) => Some(b), _ => None } }
pub open spec fn jr_int(o: Option<Json>) -> Option<int> { match o { Some(Json::Int(i)) => if -0x8000_0000_0000_0000 <= i < 0x8000_0000_0000_0000 { Some(i) } else { None }, _ => None } }
pub open spec fn jr_dbl(o: Option<Json>) -> Option<Fl> { match o { Some(Json::Int(i)) => Some(fl_of_int(i)), Some(Json::Num(f)) => Some(f), _ => None } }
pub open spec fn jr_arr(o: Option<Json>) -> Option<Seq<Json>> { match o { Some(Json::Arr(s)) => Some(s), _ => None } }
pub open spec fn jr_obj(o: Option<Json>) -> Option<JObj> { match o { Some(Json::Obj(s)) => Some(s), _ => None } }
pub open spec fn jr_null(o: Option<Json>) -> Option<bool> { match o { Some(j) => Some(j is Null), _ => None } }
pub open spec fn jtype(j: Json) -> int { match j { Json::Arr(_) => 1, Json::Obj(_) => 2, Json::Int(_) => 3, Json::Num(_) => 3, Json::Str(_) => 4, Json::Bool(_) => 5, Json::Null => 6 } }
pub open spec fn jr_type(o: Option<Json>) -> Option<int> { match o { Some(j) => Some(jtype(j)), _ => None } }
pub open spec fn jr_fval(o: Option<Pair<Seq<int>, Json>>) -> Option<Json> { match o { Some(p) => Some(p.second), _ => None } }
pub open spec fn jr_fkey(o: Option<Pair<Seq<int>, Json>>) -> Option<Seq<int>> { match o { Some(p) => Some(p.first), _ => None } }
// a field: there, of its type or null; its value, or the empty one for null
pub open spec fn fits32(i: int) -> bool { -0x8000_0000 <= i < 0x8000_0000 }
pub open spec fn has_str(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && (jget(o, k)->0 is Null || jget(o, k)->0 is Str) }
pub open spec fn has_bool(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && (jget(o, k)->0 is Null || jget(o, k)->0 is Bool) }
pub open spec fn is_int32(j: Json) -> bool { match j { Json::Int(i) => fits32(i), _ => false } }
pub open spec fn has_int(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && (jget(o, k)->0 is Null || is_int32(jget(o, k)->0)) }
pub open spec fn get_str(o: JObj, k: Seq<int>) -> Seq<int> { match jget(o, k) { Some(Json::Str(s)) => s, _ => Seq::empty() } }
pub open spec fn get_bool(o: JObj, k: Seq<int>) -> bool { match jget(o, k) { Some(Json::Bool(b)) => b, _ => false } }
pub open spec fn get_int(o: JObj, k: Seq<int>) -> int { match jget(o, k) { Some(Json::Int(i)) => i, _ => 0 } }
pub open spec fn typed(o: JObj) -> bool { jget(o, S"type") is Some && jget(o, S"type")->0 is Str }
pub open spec fn is_arr(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && jget(o, k)->0 is Arr }
pub open spec fn jarr(o: JObj, k: Seq<int>) -> Seq<Json> { match jget(o, k) { Some(Json::Arr(a)) => a, _ => Seq::empty() } }
""", only="C25")
trust("simdjson's on-demand values behave as the parsed document: lookups find the (only) field of a name, iteration gives the elements in order, the accessors convert exactly, and a wrong type is an error", only="C25")
