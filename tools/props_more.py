p("C05", "Capacity: reserve holds, growth is amortized, limits are reported",
  "After reserve(n) a segment's capacity is at least n, and while its elements fit into its capacity no operation reallocates it or "
  "changes its capacity; only shrink_to_fit may reduce a capacity, and none is ever below the size or above max_size; collection-wide forms act on each segment like the per-type ones. Requests "
  "beyond max_size throw length_error and lose nothing; everything up to max_size can be reached. A single insertion or erasure "
  "costs element moves linear in the distance to the segment's end plus amortized constant growth.",
  ["histories", "inputs"], "every size and capacity, every reservation (also absurd ones), every insertion position and "
  "range length, long append histories", "tests reserve a few fixed sizes and never reach max_size; quadratic growth or a lost "
  "reservation does not change their results",
  SEG, [("reservation of element store and index together", D + "split_segment.hpp"), ("contiguous storage",
        D + "packed_segment.hpp"), ("reservation of all segments", D + "poly_collection.hpp")])
p("C15", "Abstract references are the stored objects, complete and uncopied",
  "Through every view an element behaves as the stored object itself: calls act on it and pass arguments and results with their "
  "exact types and value categories, and its type, address, target and conversion to std::function all refer to it. An object "
  "inserted through a reference to an interface, an intermediate class or another wrapper is stored complete as its dynamic type, "
  "or refused with unregistered_type; it is never sliced or stored as the wrapper.",
  ["histories", "inputs", "configurations"], "every callable kind and signature, static/dynamic type pair, registration state and "
  "short history of modifications", "tests use one signature, one hierarchy and one concept and mostly look at results",
  [D + "callable_wrapper.hpp", D + "function_model.hpp", D + "any_model.hpp", D + "base_model.hpp",
   D + "callable_wrapper_iterator.hpp", D + "any_iterator.hpp", D + "poly_collection.hpp"],
  [("reference to a callable with dispatch table", D + "callable_wrapper.hpp"), ("dynamic type and address of a value",
    D + "base_model.hpp"), ("extraction from type-erased values", D + "any_model.hpp")])
p("C16", "Const operations never write, so concurrent reads are safe",
  "No const operation (lookups, traversals, comparisons, copying from a collection, inserting from it elsewhere, non-modifying "
  "algorithms over const iterators) modifies the collection, its elements, its internal storage or any shared state, and "
  "repeating it gives the same result; views and iterators of a const collection give const access only. Any number of threads can therefore read a collection concurrently.",
  ["schedules", "histories"], "every interleaving of const operations from any number of threads on every collection state",
  "tests are single threaded and a hidden write during a read does not change what they see",
  [D + "type_info_map.hpp", D + "poly_collection.hpp", D + "segment.hpp", D + "iterator_impl.hpp", P + "algorithm.hpp"],
  [("const lookup does not fill the cache", D + "type_info_map.hpp"), ("const views", D + "poly_collection.hpp")])
p("C17", "Inserting an element of the collection into itself is safe",
  "A single insertion or emplacement whose argument is, or refers into, an element of the same collection inserts the value that "
  "element had before the call, at the requested position and without changing any other element, whether or not the storage has "
  "to grow or elements have to shift.",
  ["inputs", "histories"], "every segment size, free capacity, source element, position and overload", "tests insert external "
  "values only; the failure needs the source behind the insertion point or a full segment",
  [D + "split_segment.hpp", D + "packed_segment.hpp", D + "value_holder.hpp"],
  [("temporary made before elements shift", D + "split_segment.hpp"), ("vector semantics", D + "packed_segment.hpp")])
