#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here) and MANIFEST.json (from plan.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plan

D = "include/boost/poly_collection/detail/"
P = "include/boost/poly_collection/"
props = []


def p(pid, title, statement, over, qtext, why, files, mech, observe=None):
    props.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                              "observe_at": observe or ["public interface of base_, function_ and any_collection"],
                              "hook_needed": None}})


SEG = [D + "poly_collection.hpp", D + "segment.hpp", D + "packed_segment.hpp", D + "split_segment.hpp",
       D + "type_info_map.hpp"]

p("C01", "Operations change exactly the elements they are asked to, in order",
  "After any sequence of insertions (single, hinted, positioned, range, mixed-type), emplacements, erasures, clears, "
  "reservations and registrations, the collection holds exactly the elements the sequence implies: each one in the "
  "segment of its dynamic type, each segment in the documented order, no segment other than the addressed ones changed. "
  "Sizes, emptiness, registration and the global traversal (the concatenation of the segments) report exactly these "
  "elements.",
  ["histories", "inputs"], "every operation sequence, every position and range length, every mix of element types and every "
  "collection flavour", "the tests drive a few fixed sequences with fixed positions; order errors that depend on free "
  "capacity, on which segment is empty, or on the overload used are not sampled",
  SEG, [("insertion dispatch to the segment of the dynamic type", D + "poly_collection.hpp"),
        ("contiguous storage of base_collection segments", D + "packed_segment.hpp"),
        ("element store plus index of function_/any_collection segments", D + "split_segment.hpp")])
p("C02", "Returned iterators and hints designate the documented position",
  "The iterator returned by insert, emplace, emplace_hint, emplace_pos and erase designates the first inserted element, or "
  "the element following the last erased one, or the hinted or end position when nothing was inserted or erased. A hint or "
  "position inside the element's own segment is honoured exactly; a hint elsewhere makes the element go to the end of its "
  "segment. The returned iterator can be used to traverse the rest of the collection.",
  ["histories", "inputs"], "every reachable collection, every overload, every hint/position including those at segment "
  "boundaries, before empty segments and at the global end", "tests check a handful of positions in one arrangement of "
  "segments; boundaries between empty and non-empty segments, and positions under reallocation, are not covered",
  SEG + [D + "iterator_impl.hpp"],
  [("hint resolution", D + "poly_collection.hpp"), ("global iterator built from segment position", D + "iterator_impl.hpp"),
   ("positions returned by the segment after growth", D + "split_segment.hpp")])
p("C03", "All views of a collection show the same elements in the same order",
  "In every reachable state the global traversal, the local views (by type_info and by static type), their const variants "
  "and the segment traversal show the same objects in the same order, each object exactly once, with the correct dynamic "
  "type. Iterator conversions, comparisons, arithmetic and dereferencing agree with positions, value-initialized iterators of a type are equal, and a default traversal "
  "visits every element and stops.",
  ["histories", "inputs"], "every reachable collection shape (which segments are empty, first, last), every pair of iterator "
  "positions and every kind of iterator", "tests iterate over one populated collection; the skipping of empty segments, "
  "end-of-segment sentinels and views after erasures or growth are only sampled",
  [D + "iterator_impl.hpp", D + "stride_iterator.hpp", D + "callable_wrapper_iterator.hpp", D + "any_iterator.hpp"] + SEG,
  [("global iterator and segment skipping", D + "iterator_impl.hpp"), ("iterator over elements of varying size",
    D + "stride_iterator.hpp"), ("index of references into the element store", D + "split_segment.hpp")])
p("C04", "Iterators and references stay valid as the contract promises",
  "An operation on one segment leaves every iterator, pointer and reference to elements of the other segments, and the "
  "global end, valid and designating the same elements. Within the operated segment, while capacity is not exceeded, those "
  "before the point of insertion or erasure stay valid; moving or swapping collections with the storage handed over keeps "
  "all of them valid.",
  ["histories", "inputs"], "every reachable collection, every operation and position, all outstanding iterators of all kinds",
  "tests do not hold iterators across operations except in few fixed cases, and stale iterators often seem to work",
  SEG + [D + "iterator_impl.hpp"],
  [("one independent storage per type", D + "type_info_map.hpp"), ("index entries updated in place without reallocation",
    D + "split_segment.hpp"), ("sentinel of a segment", D + "segment.hpp")])
p("C06", "Every element is constructed once, destroyed once and never used outside life",
  "Through any history each stored object is constructed exactly once, destroyed exactly once, properly aligned, never "
  "accessed before construction or after destruction, and never relocated bytewise; construction and destruction go through "
  "the collection's allocator. When the collection dies, all elements are destroyed and all memory is returned, with the "
  "size it was requested with and to an equal allocator.",
  ["histories", "inputs"], "every operation history on element types with nothrow and throwing moves, move-only, "
  "non-assignable and over-aligned ones", "tests use trivial element types and no lifetime tracking or sanitizer; leaks, "
  "double destruction or stale index entries do not change the values they compare",
  SEG + [D + "value_holder.hpp", D + "allocator_adaptor.hpp"],
  [("element holder with emulated assignment", D + "value_holder.hpp"), ("allocator-aware construction",
    D + "allocator_adaptor.hpp")])
p("C07", "Copy, move, swap and assignment have value semantics",
  "Copy construction and assignment give the target the same types, elements and segment order within each type as the "
  "source, independent of it afterwards; move construction and assignment transfer the elements and leave the source valid; "
  "swap exchanges the contents; self-assignment and self-swap change nothing. This holds for all combinations of previous "
  "contents and allocator equality, and types registered without elements are transferred too.",
  ["histories", "inputs", "configurations"], "every pair of small collections (which types registered, how many elements), every "
  "whole-collection operation, followed by further mutations of either side", "tests copy and move a single populated "
  "collection into an empty or fixed one",
  [D + "poly_collection.hpp", D + "segment.hpp", D + "type_info_map.hpp", D + "packed_segment.hpp", D + "split_segment.hpp"],
  [("deep copy of segments", D + "segment.hpp"), ("map and lookup cache copied and rebuilt together", D + "type_info_map.hpp")])
p("C08", "Allocators are used and propagated as the allocator traits say",
  "All memory and elements of a collection are obtained from and returned to its allocator, including internal bookkeeping. "
  "Copy construction selects the allocator via select_on_container_copy_construction, extended constructors use the given one, "
  "assignment and swap propagate it exactly when the propagation traits say so; when an unequal allocator is not propagated, "
  "elements are transferred one by one instead of storage. Elements, and only elements, are constructed and destroyed through "
  "the construct and destroy functions of the allocator.",
  ["configurations", "histories"], "every combination of propagation traits, allocator equality, source and target contents and "
  "whole-collection operation", "tests use two stateful allocators in one arrangement and do not trace which allocator each "
  "block and element came from",
  [D + "allocator_adaptor.hpp", D + "type_info_map.hpp", D + "segment.hpp", D + "packed_segment.hpp", D + "split_segment.hpp",
   D + "poly_collection.hpp"],
  [("propagation on assignment and swap", D + "type_info_map.hpp"), ("rebinding construct", D + "allocator_adaptor.hpp")])
p("C09", "Equality compares types and per-type sequences, regardless of history",
  "Two collections compare equal exactly when they have the same number of elements and, for each type, equal sequences in the "
  "same order; neither the order in which types were registered, nor registered types without elements, nor capacities matter, "
  "and != is the negation. Comparing elements of a type without equality reports not_equality_comparable with that type, and "
  "only when such elements have to be compared.",
  ["histories", "inputs"], "every pair of collections with up to a few elements of several types and every registration history",
  "tests compare one collection with a handful of variants",
  [D + "poly_collection.hpp", D + "segment.hpp", D + "value_holder.hpp", D + "packed_segment.hpp", D + "split_segment.hpp"],
  [("collection comparison", D + "poly_collection.hpp"), ("element comparison", D + "value_holder.hpp")])
p("C10", "A failing operation leaves every collection involved valid and usable",
  "If a user operation (constructor, copy, move, assignment, comparison, iterator, allocation) throws at any point, the "
  "exception is passed on and all collections involved remain in a valid state: all views agree, nothing leaks or is destroyed "
  "twice, no memory goes to the wrong allocator, segments not addressed are unchanged and no registered type is lost. Every "
  "further operation then works normally.",
  ["fault_sequences", "histories"], "every point of every operation at which user code or the allocator can throw, from every "
  "reachable collection", "the tests never let element operations throw and inject no allocation failures",
  SEG + [D + "value_holder.hpp"],
  [("index rebuilt after failure", D + "split_segment.hpp"), ("sentinel refreshed after failure", D + "segment.hpp"),
   ("map and cache kept together", D + "type_info_map.hpp")])
p("C11", "Appending one element either succeeds or changes nothing",
  "If inserting or emplacing a single element at the end of its segment fails because of an exception, the collection's elements "
  "are the same, in the same order, as before, except for move-only types whose move constructor threw. This holds with or "
  "without spare capacity and for all overloads.",
  ["fault_sequences", "histories"], "every fault point of every single-element append from every reachable collection",
  "tests inject no faults", SEG + [D + "value_holder.hpp"],
  [("growth before modification", D + "packed_segment.hpp"), ("growth of store and index before modification",
    D + "split_segment.hpp")])
p("C12", "Types are registered exactly when needed and misuse is reported precisely",
  "A type is registered by registering it, by inserting or emplacing an element statically known to be of it, or by reserving for it; "
  "any type-directed access to an unregistered type, and inserting through a base reference or range an element of one, reports "
  "unregistered_type with that type and changes nothing. Types are identified by std::type_info equality, also across many types "
  "and several type_info objects; copying a non-copyable element reports not_copy_constructible with its type.",
  ["histories", "inputs", "configurations"], "every registration and lookup history over up to dozens of types, with repeated "
  "lookups through distinct type_info objects, across rehashes, copies, moves and swaps", "tests register a handful of types "
  "and check a few of the accessors on unregistered ones",
  [D + "type_info_map.hpp", D + "poly_collection.hpp", P + "exception.hpp", D + "value_holder.hpp"],
  [("type lookup with cache", D + "type_info_map.hpp"), ("segment creation", D + "poly_collection.hpp")])
p("C13", "The library's algorithms give the results of the standard ones",
  "Each algorithm of the library, with or without a list of restituted types, on any iterator range of a collection returns the "
  "same result, makes the same element-wise changes and calls its callables on the same elements in the same order as the "
  "standard algorithm on the equivalent plain sequence. The range may start and end anywhere, including inside segments and next "
  "to empty ones.",
  ["inputs", "histories"], "every distribution of values over a few segments, every subrange, every argument value, every list of "
  "restituted types (none, partial, complete, irrelevant)", "tests run each algorithm over one large collection and few ranges",
  [P + "algorithm.hpp", D + "segment_split.hpp", D + "functional.hpp", D + "type_restitution.hpp"],
  [("split of a range into per-segment ranges", D + "segment_split.hpp"), ("segment-wise algorithms", P + "algorithm.hpp")])
p("C14", "Restituted types reach the callable as themselves, all others abstractly",
  "When an algorithm is given a list of types, its callable receives elements of the listed types as references of exactly that "
  "static type, designating the stored element itself with the range's constness, and all other elements as references to the "
  "abstract value type. This holds for every argument of binary callables independently.",
  ["inputs", "configurations"], "every pair of element types, every list of types, every algorithm and every subrange",
  "tests only check results, which do not depend on the static type the callable sees",
  [P + "algorithm.hpp", D + "type_restitution.hpp", D + "functional.hpp", D + "segment_split.hpp"],
  [("type restitution", D + "type_restitution.hpp"), ("per-segment callable", P + "algorithm.hpp")])

EXTRA = os.path.join(V, "tools", "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
props.sort(key=lambda x: x["id"])
for q in props:
    assert len(q["title"]) <= 80, q["title"]
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for q in props:
        fh.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harnesses observe the library through its public interface, instrumented element types, "
              "allocators and iterators. known_findings.txt lists repaired defects and recorded findings."}
for q in props:
    x = plan.PROPS[q["id"]]
    m["checks"].append({"property": q["id"], "quick_cmd": "python3 run.py check " + q["id"],
                        "thorough_cmd": "python3 run.py check %s --tier thorough" % q["id"],
                        "evidence_file": "evidence/%s.json" % q["id"], "technique": x["technique"], "level": x["level"],
                        "level_note": x["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
