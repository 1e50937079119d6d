//! A reader and a writer in serde's data model whose every value is opaque: what a type writes and what it
//! makes of it when it reads it back is followed by the analysis. Never executed.
#![allow(clippy::all)]
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;
use tmi::*;

pub struct Node(u8);
pub struct E;
impl std::fmt::Debug for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
impl de::Error for E {
  fn custom<T: std::fmt::Display>(_: T) -> E { E }
  fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E { E }
  fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> E { E }
  fn invalid_length(_: usize, _: &dyn de::Expected) -> E { E }
  fn unknown_variant(_: &str, _: &'static [&'static str]) -> E { E }
  fn unknown_field(_: &str, _: &'static [&'static str]) -> E { E }
  fn missing_field(_: &'static str) -> E { E }
  fn duplicate_field(_: &'static str) -> E { E }
}

// what is written; given their meaning by the analysis
#[inline(never)] pub fn m_none() -> Node { Node(0) }
#[inline(never)] pub fn m_unit() -> Node { Node(0) }
#[inline(never)] pub fn m_bool(_: bool) -> Node { Node(1) }
#[inline(never)] pub fn m_int(_: i64) -> Node { Node(2) }
#[inline(never)] pub fn m_uint(_: u64) -> Node { Node(3) }
#[inline(never)] pub fn m_text(_: &str) -> Node { Node(4) }
#[inline(never)] pub fn m_map() -> Node { Node(5) }
#[inline(never)] pub fn m_seq() -> Node { Node(6) }
#[inline(never)] pub fn m_put(_: &mut Node, _: &str, _: Node) { loop {} }
#[inline(never)] pub fn m_skip(_: &mut Node, _: &str) { loop {} }
#[inline(never)] pub fn m_add(_: &mut Node, _: Node) { loop {} }
#[inline(never)] pub fn m_variant(_: &'static str, _: Node) -> Node { Node(7) }
#[inline(never)] pub fn m_bare(_: &'static str) -> Node { Node(7) }
// what is read
#[inline(never)] pub fn r_is_none(_: &Node) -> bool { true }
#[inline(never)] pub fn r_is_bool(_: &Node) -> bool { true }
#[inline(never)] pub fn r_is_int(_: &Node) -> bool { true }
#[inline(never)] pub fn r_is_uint(_: &Node) -> bool { true }
#[inline(never)] pub fn r_is_text(_: &Node) -> bool { true }
#[inline(never)] pub fn r_is_map(_: &Node) -> bool { true }
#[inline(never)] pub fn r_is_seq(_: &Node) -> bool { true }
#[inline(never)] pub fn r_bool(_: &Node) -> bool { true }
#[inline(never)] pub fn r_int(_: &Node) -> i64 { 0 }
#[inline(never)] pub fn r_uint(_: &Node) -> u64 { 0 }
#[inline(never)] pub fn r_text<'de>(_: &Node) -> &'de str { "" }
#[inline(never)] pub fn r_has(_: &Node) -> bool { true }
/// takes the next entry (from the front or the back)
#[inline(never)] pub fn r_key<'de>(_: &mut Node, _back: bool) -> &'de str { "" }
#[inline(never)] pub fn r_value(_: &mut Node) -> Node { loop {} }
#[inline(never)] pub fn r_is_bare(_: &Node) -> bool { true }
#[inline(never)] pub fn r_is_variant(_: &Node) -> bool { true }
#[inline(never)] pub fn r_inner(_: &Node) -> Node { loop {} }

pub struct W;
pub struct Seq(Node);
pub struct Map(Node, &'static str);
pub struct Struct(Node, Option<&'static str>);
impl Serializer for W {
  type Ok = Node; type Error = E;
  type SerializeSeq = Seq; type SerializeTuple = Seq; type SerializeTupleStruct = Seq; type SerializeTupleVariant = VSeq;
  type SerializeMap = Map; type SerializeStruct = Struct; type SerializeStructVariant = Struct;
  fn serialize_bool(self, v: bool) -> Result<Node, E> { Ok(m_bool(v)) }
  fn serialize_i8(self, v: i8) -> Result<Node, E> { Ok(m_int(v as i64)) }
  fn serialize_i16(self, v: i16) -> Result<Node, E> { Ok(m_int(v as i64)) }
  fn serialize_i32(self, v: i32) -> Result<Node, E> { Ok(m_int(v as i64)) }
  fn serialize_i64(self, v: i64) -> Result<Node, E> { Ok(m_int(v)) }
  fn serialize_u8(self, v: u8) -> Result<Node, E> { Ok(m_uint(v as u64)) }
  fn serialize_u16(self, v: u16) -> Result<Node, E> { Ok(m_uint(v as u64)) }
  fn serialize_u32(self, v: u32) -> Result<Node, E> { Ok(m_uint(v as u64)) }
  fn serialize_u64(self, v: u64) -> Result<Node, E> { Ok(m_uint(v)) }
  fn serialize_f32(self, _: f32) -> Result<Node, E> { Err(E) }
  fn serialize_f64(self, _: f64) -> Result<Node, E> { Err(E) }
  fn serialize_char(self, _: char) -> Result<Node, E> { Err(E) }
  fn serialize_str(self, v: &str) -> Result<Node, E> { Ok(m_text(v)) }
  fn serialize_bytes(self, _: &[u8]) -> Result<Node, E> { Err(E) }
  fn serialize_none(self) -> Result<Node, E> { Ok(m_none()) }
  // as in the text formats: a present value is written as it is
  fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Node, E> { v.serialize(W) }
  fn serialize_unit(self) -> Result<Node, E> { Ok(m_none()) }
  fn serialize_unit_struct(self, _: &'static str) -> Result<Node, E> { Ok(m_none()) }
  fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Node, E> { Ok(m_bare(v)) }
  fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Node, E> { v.serialize(W) }
  fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Node, E> {
    match v.serialize(W) { Ok(x) => Ok(m_variant(n, x)), Err(e) => Err(e) }
  }
  fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> { Ok(Seq(m_seq())) }
  fn serialize_tuple(self, _: usize) -> Result<Seq, E> { Ok(Seq(m_seq())) }
  fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> { Ok(Seq(m_seq())) }
  fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<VSeq, E> { Ok(VSeq(m_seq(), v)) }
  fn serialize_map(self, _: Option<usize>) -> Result<Map, E> { Ok(Map(m_map(), "")) }
  fn serialize_struct(self, _: &'static str, _: usize) -> Result<Struct, E> { Ok(Struct(m_map(), None)) }
  fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Struct, E> { Ok(Struct(m_map(), Some(v))) }
}
pub struct VSeq(Node, &'static str);
impl ser::SerializeSeq for Seq {
  type Ok = Node; type Error = E;
  fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { let x = v.serialize(W)?; m_add(&mut self.0, x); Ok(()) }
  fn end(self) -> Result<Node, E> { Ok(self.0) }
}
impl ser::SerializeTuple for Seq {
  type Ok = Node; type Error = E;
  fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { let x = v.serialize(W)?; m_add(&mut self.0, x); Ok(()) }
  fn end(self) -> Result<Node, E> { Ok(self.0) }
}
impl ser::SerializeTupleStruct for Seq {
  type Ok = Node; type Error = E;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { let x = v.serialize(W)?; m_add(&mut self.0, x); Ok(()) }
  fn end(self) -> Result<Node, E> { Ok(self.0) }
}
impl ser::SerializeTupleVariant for VSeq {
  type Ok = Node; type Error = E;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { let x = v.serialize(W)?; m_add(&mut self.0, x); Ok(()) }
  fn end(self) -> Result<Node, E> { Ok(m_variant(self.1, self.0)) }
}
impl ser::SerializeMap for Map {
  type Ok = Node; type Error = E;
  fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> { let k = k.serialize(W)?; self.1 = r_text(&k); Ok(()) }
  fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { let x = v.serialize(W)?; m_put(&mut self.0, self.1, x); Ok(()) }
  fn end(self) -> Result<Node, E> { Ok(self.0) }
}
impl ser::SerializeStruct for Struct {
  type Ok = Node; type Error = E;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> { let x = v.serialize(W)?; m_put(&mut self.0, k, x); Ok(()) }
  fn skip_field(&mut self, k: &'static str) -> Result<(), E> { m_skip(&mut self.0, k); Ok(()) }
  fn end(self) -> Result<Node, E> { Ok(self.0) }
}
impl ser::SerializeStructVariant for Struct {
  type Ok = Node; type Error = E;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> { let x = v.serialize(W)?; m_put(&mut self.0, k, x); Ok(()) }
  fn skip_field(&mut self, k: &'static str) -> Result<(), E> { m_skip(&mut self.0, k); Ok(()) }
  fn end(self) -> Result<Node, E> { match self.1 { Some(v) => Ok(m_variant(v, self.0)), None => Err(E) } }
}

/// BACK: entries come last first, texts are not part of the input
pub struct R<const BACK: bool>(Node);
impl<'de, const BACK: bool> R<BACK> {
  fn text<V: Visitor<'de>>(t: &'de str, v: V) -> Result<V::Value, E> { if BACK { v.visit_str::<E>(t) } else { v.visit_borrowed_str::<E>(t) } }
}
macro_rules! any { ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) })* } }
impl<'de, const BACK: bool> Deserializer<'de> for R<BACK> {
  type Error = E;
  fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
    if r_is_none(&self.0) { return v.visit_unit::<E>(); }
    if r_is_bool(&self.0) { return v.visit_bool::<E>(r_bool(&self.0)); }
    if r_is_int(&self.0) { let n = r_int(&self.0); return if n < 0 { v.visit_i64::<E>(n) } else { v.visit_u64::<E>(n as u64) }; }
    if r_is_uint(&self.0) { return v.visit_u64::<E>(r_uint(&self.0)); }
    if r_is_text(&self.0) { return Self::text(r_text(&self.0), v); }
    if r_is_map(&self.0) { return v.visit_map(M::<BACK>(self.0)); }
    if r_is_seq(&self.0) { return v.visit_seq(M::<BACK>(self.0)); }
    Err(E)
  }
  any! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier }
  fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { if r_is_none(&self.0) { v.visit_none::<E>() } else { v.visit_some(self) } }
  fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
  fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
  fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
  fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
  fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
  fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
    if r_is_bare(&self.0) || r_is_variant(&self.0) { v.visit_enum(M::<BACK>(self.0)) } else { Err(E) }
  }
  fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_unit::<E>() }
}
pub struct M<const BACK: bool>(Node);
impl<'de, const BACK: bool> MapAccess<'de> for M<BACK> {
  type Error = E;
  fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, E> {
    if !r_has(&self.0) { return Ok(None); }
    match k.deserialize(K_::<BACK>(r_key(&mut self.0, BACK))) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
  }
  fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, v: V) -> Result<V::Value, E> { v.deserialize(R::<BACK>(r_value(&mut self.0))) }
}
impl<'de, const BACK: bool> SeqAccess<'de> for M<BACK> {
  type Error = E;
  fn next_element_seed<V: DeserializeSeed<'de>>(&mut self, v: V) -> Result<Option<V::Value>, E> {
    if !r_has(&self.0) { return Ok(None); }
    match v.deserialize(R::<BACK>(r_value(&mut self.0))) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
  }
}
impl<'de, const BACK: bool> EnumAccess<'de> for M<BACK> {
  type Error = E; type Variant = M<BACK>;
  fn variant_seed<V: DeserializeSeed<'de>>(self, v: V) -> Result<(V::Value, M<BACK>), E> {
    match v.deserialize(K_::<BACK>(r_text(&self.0))) { Ok(x) => Ok((x, self)), Err(e) => Err(e) }
  }
}
impl<'de, const BACK: bool> VariantAccess<'de> for M<BACK> {
  type Error = E;
  fn unit_variant(self) -> Result<(), E> { if r_is_bare(&self.0) { Ok(()) } else { Err(E) } }
  fn newtype_variant_seed<V: DeserializeSeed<'de>>(self, v: V) -> Result<V::Value, E> { if r_is_variant(&self.0) { v.deserialize(R::<BACK>(r_inner(&self.0))) } else { Err(E) } }
  fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { if r_is_variant(&self.0) { R::<BACK>(r_inner(&self.0)).deserialize_any(v) } else { Err(E) } }
  fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> { if r_is_variant(&self.0) { R::<BACK>(r_inner(&self.0)).deserialize_any(v) } else { Err(E) } }
}
/// the name of a field or of a variant
pub struct K_<'de, const BACK: bool>(&'de str);
impl<'de, const BACK: bool> Deserializer<'de> for K_<'de, BACK> {
  type Error = E;
  fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { if BACK { v.visit_str::<E>(self.0) } else { v.visit_borrowed_str::<E>(self.0) } }
  serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

macro_rules! types { ($($t:ident $n:ident $r:ident: $ty:ty;)*) => { $(
  pub fn $n<'s>(x: &$ty) -> Result<$ty, E> { let n = x.serialize(W)?; <$ty>::deserialize(R::<false>(n)) }
  pub fn $r<'s>(x: &$ty) -> Result<$ty, E> { let n = x.serialize(W)?; <$ty>::deserialize(R::<true>(n)) }
)* } }
types! {
  Badge h_rt__Badge h_rtb__Badge: Badge<'s>;
  Subscriber h_rt__Subscriber h_rtb__Subscriber: Subscriber<'s>;
  BadgeData h_rt__BadgeData h_rtb__BadgeData: BadgeData<'s>;
  User h_rt__User h_rtb__User: User<'s>;
  ClearChat h_rt__ClearChat h_rtb__ClearChat: ClearChat<'s>;
  Action h_rt__Action h_rtb__Action: Action<'s>;
  Ban h_rt__Ban h_rtb__Ban: Ban<'s>;
  TimeOut h_rt__TimeOut h_rtb__TimeOut: TimeOut<'s>;
  ClearMsg h_rt__ClearMsg h_rtb__ClearMsg: ClearMsg<'s>;
  GlobalUserState h_rt__GlobalUserState h_rtb__GlobalUserState: GlobalUserState<'s>;
  Join h_rt__Join h_rtb__Join: Join<'s>;
  Notice h_rt__Notice h_rtb__Notice: Notice<'s>;
  Part h_rt__Part h_rtb__Part: Part<'s>;
  Ping h_rt__Ping h_rtb__Ping: Ping<'s>;
  Pong h_rt__Pong h_rtb__Pong: Pong<'s>;
  Privmsg h_rt__Privmsg h_rtb__Privmsg: Privmsg<'s>;
  Reply h_rt__Reply h_rtb__Reply: Reply<'s>;
  PinnedChat h_rt__PinnedChat h_rtb__PinnedChat: PinnedChat<'s>;
  PinnedChatLevel h_rt__PinnedChatLevel h_rtb__PinnedChatLevel: PinnedChatLevel;
  RoomState h_rt__RoomState h_rtb__RoomState: RoomState<'s>;
  FollowersOnly h_rt__FollowersOnly h_rtb__FollowersOnly: FollowersOnly;
  UserNotice h_rt__UserNotice h_rtb__UserNotice: UserNotice<'s>;
  Event h_rt__Event h_rtb__Event: Event<'s>;
  SubOrResub h_rt__SubOrResub h_rtb__SubOrResub: SubOrResub<'s>;
  Raid h_rt__Raid h_rtb__Raid: Raid<'s>;
  SubGift h_rt__SubGift h_rtb__SubGift: SubGift<'s>;
  SubMysteryGift h_rt__SubMysteryGift h_rtb__SubMysteryGift: SubMysteryGift<'s>;
  AnonSubMysteryGift h_rt__AnonSubMysteryGift h_rtb__AnonSubMysteryGift: AnonSubMysteryGift<'s>;
  GiftPaidUpgrade h_rt__GiftPaidUpgrade h_rtb__GiftPaidUpgrade: GiftPaidUpgrade<'s>;
  AnonGiftPaidUpgrade h_rt__AnonGiftPaidUpgrade h_rtb__AnonGiftPaidUpgrade: AnonGiftPaidUpgrade<'s>;
  Ritual h_rt__Ritual h_rtb__Ritual: Ritual<'s>;
  BitsBadgeTier h_rt__BitsBadgeTier h_rtb__BitsBadgeTier: BitsBadgeTier;
  Announcement h_rt__Announcement h_rtb__Announcement: Announcement<'s>;
  SubGiftPromo h_rt__SubGiftPromo h_rtb__SubGiftPromo: SubGiftPromo<'s>;
  UserState h_rt__UserState h_rtb__UserState: UserState<'s>;
  Whisper h_rt__Whisper h_rtb__Whisper: Whisper<'s>;
}
