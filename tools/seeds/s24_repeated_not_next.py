PROP='P30'
NEEDS='A list of key-value pairs where the entries with the same key are not next to each other.'
BREAKS='A repeated key is recognized only right after its first occurrence, so that a misbehaving party can list the same party twice in its echo message with anything in between, and the second entry silently replaces the first.'
EDITS=[('manul/src/utils/serializable_map.rs','''            // This clone, and the consequent `Debug` bound on the impl can be removed
            // when `BTreeMap::try_insert()` is stabilized.
            // Or we could call `BTreeMap::contains()` first, but it's more expensive than cloning a key
            // (which will be short).
            let key_clone = key.clone();
            if map.0.insert(key, value).is_some() {
                return Err(de::Error::custom(format!("Duplicate key: {key_clone:?}")));
            }
''','''            // The entries are sorted, so a repeated key will be next to its first occurrence.
            if map.0.last_key_value().is_some_and(|(last, _)| last == &key) {
                return Err(de::Error::custom(format!("Duplicate key: {key:?}")));
            }
            map.0.insert(key, value);
''')]
DEMO='''mod common;
use common::*;
use manul::utils::SerializableMap;

fn main() {
    let read = |s: &str| serde_json::from_str::<SerializableMap<u8, u8>>(s);
    let map: SerializableMap<u8, u8> = [(1, 10), (2, 20), (3, 30)].into_iter().collect();
    check(read(&serde_json::to_string(&map).unwrap()).unwrap() == map, "the map reads back");
    check(read("[[3,30],[1,10],[2,20]]").unwrap() == map, "in any order");
    check(read("[[1,10],[1,20]]").is_err(), "repeated at once");
    check(read("[[1,10],[2,20],[1,10]]").is_err(), "the same entry repeated later");
    check(read("[[1,10],[2,20],[1,30]]").is_err(), "the key repeated later");
    check(read("[[2,10],[1,20],[3,20],[2,30]]").is_err(), "unsorted");
}
'''
