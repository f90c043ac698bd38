//! A tag tree in memory, and worlds of tags that refer to each other.
use crate::c11::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::read_any_tag_from_file_buffer;
use ringhopper::error::{Error, RinghopperResult};
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::dependency::*;
use ringhopper::tag::tree::*;
use serde_json::Value;
use std::borrow::Cow;
use std::collections::BTreeMap;

/// `None`: the tag exists but cannot be read.
#[derive(Default)]
pub struct GTree {
    pub tags: BTreeMap<TagPath, Option<Box<dyn PrimaryTagStructDyn>>>,
}
impl TagTree for GTree {
    fn open_tag_copy(&self, path: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
        match self.tags.get(path) {
            None => Err(Error::TagNotFound(path.clone())),
            Some(None) => Err(Error::FailedToReadTag(path.clone(), vec![Error::ChecksumMismatch])),
            Some(Some(t)) => Ok(t.clone_inner()),
        }
    }
    fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> {
        if !path.is_empty() { return None }
        Some(self.tags.keys().map(|k| TagTreeItem::new(TagTreeItemType::Tag, Cow::Borrowed(k.path()), Some(k.group()), self)).collect())
    }
    fn write_tag(&mut self, path: &TagPath, tag: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
        self.tags.insert(path.clone(), Some(tag.clone_inner()));
        Ok(true)
    }
    fn is_read_only(&self) -> bool { false }
    fn contains(&self, path: &TagPath) -> bool { self.tags.contains_key(path) }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, filter: Option<&TagFilter>) -> Vec<TagPath> { iterate_through_all_tags(self, filter).collect() }
}

/// All references a dumped tag holds: (group, path).
pub fn refs_of(t: &dyn PrimaryTagStructDyn) -> Vec<TagPath> {
    fn walk(v: &Value, out: &mut Vec<TagPath>) {
        match v {
            Value::Object(o) => {
                if let (Some(g), Some(p)) = (o.get("g"), o.get("p")) {
                    let p = to_bytes(p);
                    if !p.is_empty() {
                        let g = u32::from_be_bytes(to_bytes(g).try_into().unwrap());
                        out.push(TagPath::new(std::str::from_utf8(&p).unwrap(), TagGroup::from_fourcc(g).unwrap()).unwrap());
                    }
                }
            }
            Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
            _ => (),
        }
    }
    let mut out = vec![];
    walk(&dump_tag(t), &mut out);
    out.sort();
    out.dedup();
    out
}
pub fn canonical(t: &dyn PrimaryTagStructDyn) -> Option<Box<dyn PrimaryTagStructDyn>> {
    read_any_tag_from_file_buffer(&t.to_tag_file().ok()?, ParseStrictness::Strict).ok()
}
/// A tag of the group whose references name tags of the world, rarely others.
pub fn linked_tag(r: &mut Rng, g: &str, nodes: &[TagPath], budget: usize, missing: usize) -> Box<dyn PrimaryTagStructDyn> {
    loop {
        let mut t = if r.chance(1, 8) { crate::groups::new_tag(g) } else { random_tag(r, g, 2, budget) };
        for_each_dependency_mut(t.as_mut_dynamic(), true, |allowed, rf| {
            let ok: Vec<&TagPath> = nodes.iter().filter(|n| allowed.contains(&n.group())).collect();
            *rf = if !ok.is_empty() && r.chance(2, 3) {
                TagReference::Set((*r.pick(&ok)).clone())
            } else if r.chance(missing, 400) && !allowed.is_empty() {
                TagReference::Set(TagPath::new(*r.pick(&["nowhere\\a", "x", "y"]), *r.pick(allowed)).unwrap())
            } else {
                TagReference::Null(rf.group())
            };
        });
        if let Some(t) = canonical(t.as_ref()) { return t }
    }
}
pub const LINKING: &[&str] = &[
    "tag_collection", "ui_widget_collection", "scenario", "weapon", "model", "gbxmodel", "effect", "sound", "biped", "vehicle", "item_collection", "globals", "shader_model", "object", "unit",
    "projectile", "damage_effect", "bitmap", "physics", "wind", "sky", "weapon_hud_interface", "ui_widget_definition", "particle", "sound_looping", "shader_environment", "decal", "model_animations",
    "actor_variant", "light", "lens_flare", "hud_globals", "scenario_structure_bsp", "dialogue", "particle_system", "contrail", "shader_transparent_generic", "equipment", "material_effects",
];
