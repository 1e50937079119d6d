#![allow(clippy::all)]
use std::borrow::Cow;
use tmi::*;

pub fn h_ref_parse<'s>(s: &'s str) -> Option<IrcMessageRef<'s>> { IrcMessageRef::parse(s) }
pub fn h_own_parse(s: String) -> Option<IrcMessage> { IrcMessage::parse(s) }
pub fn h_own_parse_ref(s: &String) -> Option<IrcMessage> { IrcMessage::parse(s) }

pub fn h_ref_raw<'r, 's>(m: &'r IrcMessageRef<'s>) -> &'s str { m.raw() }
pub fn h_ref_tags<'r, 's>(m: &'r IrcMessageRef<'s>) -> Vec<(&'s str, &'s str)> { m.tags().collect() }
pub fn h_ref_prefix<'r, 's>(m: &'r IrcMessageRef<'s>) -> Option<Prefix<'s>> { m.prefix() }
pub fn h_ref_command<'r, 's>(m: &'r IrcMessageRef<'s>) -> Command<'s> { m.command() }
pub fn h_ref_channel<'r, 's>(m: &'r IrcMessageRef<'s>) -> Option<&'s str> { m.channel() }
pub fn h_ref_params<'r, 's>(m: &'r IrcMessageRef<'s>) -> Option<&'s str> { m.params() }
pub fn h_ref_tag<'r, 's>(m: &'r IrcMessageRef<'s>, t: Tag<'r>) -> Option<&'s str> { m.tag(t) }
pub fn h_ref_tag_str<'r, 's>(m: &'r IrcMessageRef<'s>, t: &'r str) -> Option<&'s str> { m.tag(t) }
pub fn h_ref_text<'r, 's>(m: &'r IrcMessageRef<'s>) -> Option<&'s str> { m.text() }
pub fn h_ref_into_owned<'s>(m: IrcMessageRef<'s>) -> IrcMessage { m.into_owned() }
pub fn h_ref_clone<'r, 's>(m: &'r IrcMessageRef<'s>) -> IrcMessageRef<'s> { m.clone() }

pub fn h_own_raw<'r>(m: &'r IrcMessage) -> &'r str { m.raw() }
pub fn h_own_tags<'r>(m: &'r IrcMessage) -> Vec<(&'r str, &'r str)> { m.tags().collect() }
pub fn h_own_prefix<'r>(m: &'r IrcMessage) -> Option<Prefix<'r>> { m.prefix() }
pub fn h_own_command<'r>(m: &'r IrcMessage) -> Command<'r> { m.command() }
pub fn h_own_channel<'r>(m: &'r IrcMessage) -> Option<&'r str> { m.channel() }
pub fn h_own_params<'r>(m: &'r IrcMessage) -> Option<&'r str> { m.params() }
pub fn h_own_tag<'r>(m: &'r IrcMessage, t: Tag<'r>) -> Option<&'r str> { m.tag(t) }
pub fn h_own_tag_str<'r>(m: &'r IrcMessage, t: &'r str) -> Option<&'r str> { m.tag(t) }
pub fn h_own_text<'r>(m: &'r IrcMessage) -> Option<&'r str> { m.text() }
pub fn h_own_as_ref<'r>(m: &'r IrcMessage) -> IrcMessageRef<'r> { m.as_ref() }

pub fn h_command_as_str<'r, 's>(c: &'r Command<'s>) -> &'s str { c.as_str() }
pub fn h_command_display<'r, 's>(c: &'r Command<'s>, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{c}") }
pub fn h_tag_as_str<'r, 's>(t: &'r Tag<'s>) -> &'s str { t.as_str() }
pub fn h_tag_parse<'s>(s: &'s str) -> Tag<'s> { Tag::parse(s) }
pub fn h_tag_from<'s>(s: &'s str) -> Tag<'s> { Tag::from(s) }
pub fn h_tag_display<'r, 's>(t: &'r Tag<'s>, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{t}") }
pub fn h_prefix_display<'r, 's>(t: &'r Prefix<'s>, out: &mut String) -> std::fmt::Result { use std::fmt::Write; write!(out, "{t}") }

pub fn h_unescape(s: &str) -> String { unescape(s) }
pub fn h_maybe_unescape<'s>(s: Cow<'s, str>) -> Cow<'s, str> { maybe_unescape(s) }
pub fn h_maybe_unescape_str<'s>(s: &'s str) -> Cow<'s, str> { maybe_unescape(s) }
