#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
L = "libexactreal/"
S, H = L + "src/", L + "exact-real/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Floating point approximations of a real are sound and history independent",
  "For every real number the library can construct (rationals, random reals, random reals in an interval, products of these) and every precision p, the floating point approximation it returns differs from the number by a relative error of at most 2^-p. The same number asked for the same precision gives the same approximation, no matter which precisions were asked for before, in which order, how many, or which other numbers were created, approximated or destroyed in between.",
  ["inputs", "histories", "fault_sequences"],
  "every constructible real x every precision x every earlier sequence of requests, including requests that ran out of memory half way",
  "The tests sample a few precisions of one or two numbers and compare the library against itself; caches of approximations, their eviction and the digit generator can only go wrong after particular request histories, and soundness needs an independent notion of which number is meant.",
  [S+"real_number.cc", S+"impl/real_number_base.hpp", S+"random_real_number.cc", S+"rational_real_number.cc", S+"constrained_random_real_number.cc", S+"real_number_product.cc"],
  [("caches for 54 and 64 bits and a bounded cache for the rest", S+"module.cc, "+S+"real_number_product.cc factory()"), ("digits of a random real are a function of seed and position", S+"random_real_number.cc arf_"), ("interval prefix + random tail", S+"constrained_random_real_number.cc arf_"), ("working precision of a product", S+"real_number_product.cc arf_")],
  [("arf54, arf64, large", "cached approximations", S+"impl/real_number_base.hpp")], ["RealNumber::arf"])

prop("C02", "Ball enclosures of reals and elements contain the exact value",
  "Every interval the library computes for a real number or for an element of a module contains its exact value and is at least as accurate as requested, whatever was computed before. Refining an interval that contains the number yields an interval that still contains it and has the requested accuracy, and comparing a number with an interval tells correctly whether it lies below, inside or above.",
  ["inputs", "histories"],
  "every real, every element over the integers, the rationals and number fields, every requested accuracy, every interval, every order of requests",
  "A ball that misses its number by a fraction of an ulp passes any test that prints or compares a few samples; whether the exact value is inside needs an independent oracle with more digits, over many numbers and accuracies.",
  [S+"real_number.cc", S+"element.cc", S+"arb.cc", S+"number_field.cc", S+"rational_field.cc"],
  [("ball around an approximation", S+"real_number.cc refine, arb"), ("position of a number relative to a ball", S+"real_number.cc cmp"), ("ball arithmetic over the generators", S+"element.cc Element::arb")],
  (), ["RealNumber::arb", "RealNumber::refine", "RealNumber::cmp", "Element::arb"])

prop("C03", "Comparisons agree with the exact order and always terminate",
  "All comparisons (<, >, <=, >=, ==, !=) between real numbers, elements of modules, integers of all widths, rationals and exact floating point numbers give the answer that the exact values have; they form one total order that never changes. Every comparison of values that the library documents as comparable finishes, however close the two values are, in a number of steps governed by how close they are.",
  ["inputs", "histories", "fault_sequences"],
  "every pair of comparable values, including pairs that agree to thousands of bits, operands on either side, after every history of earlier computations",
  "Tests compare a handful of well separated values; close pairs exercise the refinement loops, and a wrong answer or an endless loop appears only for particular pairs or for approximations left over from earlier requests.",
  [S+"real_number.cc", S+"element.cc", S+"arb.cc", H+"real_number.hpp", H+"element.hpp"],
  [("refine until the balls are disjoint", S+"real_number.cc operator<, operator>"), ("lt/gt templates", S+"element.cc"), ("identity decides equality", S+"real_number.cc operator==")],
  (), ["RealNumber::operator< > ==", "Element::operator< > =="])

prop("C04", "Equal reals, products and modules are one object across lifetimes",
  "Constructing the same rational, the random real of the same seed, the same interval and seed, the same product of reals in any order or association, or the same module from any order of generators yields the identical object as long as any earlier one is alive; different numbers or modules are never identified. This stays true when objects are destroyed and recreated, when memory addresses are reused, when cached objects are evicted, and when a construction fails for lack of memory.",
  ["histories", "inputs", "fault_sequences"],
  "every history of constructing, dropping and reconstructing reals, products, quotients and modules, under every reuse of addresses and every eviction from the caches, with allocations failing",
  "Uniqueness is a property of the registries over the whole life of the process; the tests keep everything alive and never force eviction, address reuse or failure.",
  [S+"real_number_product.cc", S+"module.cc", S+"rational_real_number.cc", S+"random_real_number.cc", S+"constrained_random_real_number.cc", S+"real_number_base.cc"],
  [("unique factories", S+"*.cc factory()"), ("ids of reals that are never reused", S+"real_number_base.cc"), ("keys of products: monomials and exponents", S+"real_number_product.cc Key"), ("sorted bases", S+"module.cc make")],
  [("uniqueId", "order of the generators of modules and products", S+"real_number_base.cc")], ["RealNumber::rational", "RealNumber::random", "RealNumber::operator*", "RealNumber::operator/", "Module::make", "Module::span"])

prop("C05", "Element arithmetic is exact module and ring arithmetic",
  "Sums, differences, negation, products, exact quotients, scalar multiplication and division of elements give exactly the element that the formal calculation over the integers, the rationals or a number field gives, whatever modules the operands live in and whether or not operands share or alias storage. Extending an element to a larger module, simplifying it and reading its coefficients do not change its value; copies are independent of their originals, and a division of elements yields a quotient exactly when one exists.",
  ["inputs", "histories", "programs"],
  "every program of arithmetic over elements of all three kinds of rings, all modules, all scalar types at their extreme values, with aliased operands and arbitrary order of creation of the generators",
  "Tests check a few sums and products in freshly built modules; the order of generators depends on which reals the process created first, and mixing modules, aliasing and long histories is where merging of bases goes wrong.",
  [S+"element.cc", S+"module.cc", S+"integer_ring.cc", S+"rational_field.cc", S+"number_field.cc", S+"real_number_product.cc", H+"element.hpp"],
  [("promotion to a common module", S+"element.cc promote"), ("span of modules", S+"module.cc span"), ("products of generators", S+"element.cc operator*=(Element)"), ("polynomial division", S+"element.cc truediv"), ("in-place ring operations", S+"*_ring.cc, *_field.cc imul/idiv")],
  (), ["Element operators", "Element::truediv", "Element::promote", "Element::simplify", "Module::gen", "Module::zero", "Module::one"])

prop("C06", "An operation that fails leaves every value as it was",
  "When an operation on elements, modules, reals or archives reports an error (division by zero, a quotient that does not exist in the ring, an unsupported combination, memory exhausted), every object that existed before, including the one being modified, still has its previous value and keeps working, and repeating the operation once the cause is gone succeeds with the correct result. Operations that must be rejected are rejected.",
  ["fault_sequences", "inputs", "histories"],
  "every operation that can fail x every point at which an allocation may fail x every later use of the objects involved",
  "The tests check that an exception is thrown for a few inputs, never what is left behind, and never inject a failure in the middle of an operation.",
  [S+"element.cc", S+"integer_ring.cc", S+"rational_field.cc", S+"number_field.cc", S+"module.cc", S+"real_number.cc", S+"real_number_product.cc"],
  [("in-place updates of coefficients", S+"element.cc operator*=, operator/=, +="), ("error checks", S+"*_ring.cc idiv"), ("insertion into registries", S+"*.cc factory().get")],
  (), ["Element operators that throw", "Module::make", "RealNumber::random(a, b)"])

prop("C07", "Saving and loading restores the same values in any later process",
  "Whatever is written to an archive - intervals, floating point numbers, rationals, random reals, products, modules, elements over all rings, alone or many together - is read back as equal values, in the same process or in another one started later. This holds regardless of which numbers and modules the writing and the reading process had created, loaded or destroyed before, and reading an archive into a process where the same numbers are alive yields those same objects.",
  ["crash_points", "histories", "inputs"],
  "every set of values x every history of the writing process x every crash and restart x every history of the restarted process",
  "Tests write and read within one process in which everything is still alive, so the loader just finds the old objects; the order of generators, ids and registries only differ in a process with another past.",
  [H+"cereal.hpp", H+"cereal.interface.hpp", S+"real_number.cc", S+"real_number_product.cc", S+"random_real_number.cc", S+"constrained_random_real_number.cc", S+"rational_real_number.cc"],
  [("save/load per type", H+"cereal.hpp"), ("save/load per kind of real", S+"*_real_number*.cc"), ("coefficients are stored in the order of the module's generators", H+"cereal.hpp load(Element)")],
  (), ["cereal archives"])

prop("C08", "A truncated or failing archive never yields a wrong value",
  "When the storage behind an archive fails - short reads and writes, a full disk, an I/O error, loss of the end of the file from any byte on, memory exhausted while loading or saving - loading either reports an error or returns exactly the value that was saved, and never crashes or hangs. An archive with an entry that is not of the expected form (an unknown kind of number, text that is not a number) is rejected. Values, registries and caches that existed before are unaffected, and saving or loading again over working storage succeeds.",
  ["fault_sequences", "crash_points", "inputs"],
  "every archive x every byte at which it is cut or at which the device fails x every kind of device failure, followed by further use of the process",
  "Tests only use in-memory streams that never fail.",
  [H+"cereal.hpp", S+"real_number.cc", S+"real_number_product.cc", S+"random_real_number.cc", S+"constrained_random_real_number.cc"],
  [("errors of the archive are propagated", H+"cereal.hpp"), ("parsing of dumped intervals and floating point numbers", H+"cereal.hpp load(Arb), load(Arf)")],
  (), ["cereal archives over a simulated disk"])

prop("C09", "Sharing inside an archive is preserved",
  "Objects that were one object when an archive was written are one object after it is read: reals and modules shared between elements stay shared, distinct ones stay distinct, and no value is stored or restored as another one, however often, in which order and with whatever nesting the objects appear. Everything restored is identified with live objects of the same value.",
  ["inputs", "histories", "crash_points"],
  "every archive with several values sharing generators, factors and modules, in every order, read in the same or in a restarted process, with temporaries destroyed while the archive is being written",
  "Tests archive single values; back references and registered objects only matter once archives hold several related values.",
  [H+"cereal.hpp", S+"real_number_product.cc", S+"real_number.cc"],
  [("shared pointer registration with the archive", H+"cereal.hpp namespace cereal"), ("registries identify loaded objects with live ones", S+"*.cc load")],
  (), ["cereal archives"])

prop("C10", "Seeds are distinct under any schedule and fixed seeds are reproducible",
  "Seeds created without an explicit value are pairwise distinct within a process, no matter how many threads create them concurrently and in which order. A seed with an explicit value keeps that value and denotes the same real number at every time and in every process, independent of other seeds, of what was computed before and of the scheduling.",
  ["schedules", "histories", "crash_points"],
  "every interleaving of the threads creating seeds, every number of seeds, every restart",
  "Unit tests create seeds in one thread; a lost update needs a preemption between the read and the write of the counter.",
  [S+"seed.cc", H+"seed.hpp", S+"random_real_number.cc", S+"constrained_random_real_number.cc"],
  [("process-wide counter of seeds", S+"seed.cc")], [("nextSeed", "the next seed handed out", S+"seed.cc")],
  ["Seed::Seed()", "RealNumber::random(Seed)"])

prop("C11", "Floating point numbers compute exactly rounded values",
  "Construction, assignment, moving, swapping, negation, absolute value, shifts, comparison, floor, ceil, mantissa, exponent, binary logarithm, conversion and arithmetic expressions of arbitrary precision floating point numbers give the mathematically exact value, rounded once per operation to the requested precision in the requested direction. This holds for every composition of operations, including nested expressions and in-place operators in which the assigned variable occurs among the operands, and never changes any other variable.",
  ["inputs", "histories", "programs"],
  "every sequence of operations on a pool of variables, all rounding modes and precisions, zero, infinities, huge and tiny exponents, aliased operands",
  "The tests check single operations on a few values; evaluation of expression templates in place is sensitive to aliasing and nesting.",
  [S+"arf.cc", H+"arf.hpp", H+"yap/arf.hpp", H+"yap/arf_assign_transformation.hpp", H+"yap/assign_transformation.hpp", H+"yap/arf_expr.hpp", H+"yap/terminal.hpp"],
  [("in-place evaluation of expressions", H+"yap/*assign_transformation.hpp"), ("wrappers of arf functions", S+"arf.cc")],
  (), ["Arf and its expressions"])

prop("C12", "Interval arithmetic encloses and three-valued comparisons never err",
  "Every arithmetic expression of intervals yields an interval that contains every exact result of the expression over points of the operands, also when the assigned variable occurs among the operands; copies, moves, swaps, assignments and conversions from and to integers, rationals, algebraic numbers and endpoint pairs keep or enclose the value. A comparison of intervals with intervals, integers or rationals answers true or false only if that is right for all points, otherwise it answers undecided, and it decides when both are exact and when the gap between the intervals is not negligible compared to their radii.",
  ["inputs", "histories", "programs"],
  "every sequence of operations on a pool of intervals of all kinds (exact, wide, infinite), all precisions, aliased operands",
  "The tests check a few expressions; enclosure is a statement about all points and all compositions.",
  [S+"arb.cc", H+"arb.hpp", H+"yap/arb.hpp", H+"yap/arb_assign_transformation.hpp", H+"yap/assign_transformation.hpp"],
  [("in-place evaluation of expressions", H+"yap/*assign_transformation.hpp"), ("comparison with rationals after scaling", S+"arb.cc")],
  (), ["Arb and its expressions"])

prop("C13", "Printing is faithful and harmless, also on failing streams",
  "Printing a number, an interval, a module or an element shows its value: exact parts (rationals, mantissa and exponent, coefficients) are shown exactly, approximate parts are correct, the same value always prints as the same text, and printed sums have the value of the element. Printing never changes the value, and a stream that fails, throws or is full in the middle leaves every object and later output intact.",
  ["inputs", "histories", "fault_sequences"],
  "every printable value x every history x every byte at which the stream fails",
  "Tests compare a few printed strings on streams that never fail.",
  [S+"arf.cc", S+"arb.cc", S+"real_number.cc", S+"random_real_number.cc", S+"rational_real_number.cc", S+"constrained_random_real_number.cc", S+"real_number_product.cc", S+"module.cc", S+"element.cc"],
  [("operator<< of every type", S+"*.cc")], (), ["operator<<"])

prop("C14", "Threads working on different values do not disturb each other",
  "Threads that each create, combine, compare and destroy their own reals, modules and elements obtain the results they would obtain alone, under every interleaving, even when they construct equal values and thereby share the underlying objects through construction only. Construction of equal values from several threads yields one object.",
  ["schedules", "histories"],
  "every interleaving of the memory accesses of two to four threads that share no values except through the registries",
  "Unit tests are single threaded.",
  [S+"real_number_base.cc", S+"real_number_product.cc", S+"module.cc", S+"random_real_number.cc", S+"rational_real_number.cc", S+"seed.cc", S+"real_number.cc"],
  [("atomic ids", S+"real_number_base.cc"), ("thread-safe registries", S+"*.cc factory()"), ("function local statics", S+"*.cc")],
  [("next", "next id of a real", S+"real_number_base.cc")], ["construction, arithmetic, comparison"])

prop("C15", "Number field coefficients keep their value and their precision",
  "Elements with coefficients in a number field behave as exact algebraic numbers: conversions, enclosures, signs, comparisons and coercions between a number field and the rationals give the exact result, independent of the precision to which the embedding of the field was refined by earlier computations and of whether equal fields are separate objects. Combining elements over incompatible number fields is rejected, and combining with rational ones is not.",
  ["inputs", "histories", "fault_sequences"],
  "every element over several number fields, every history of refinements of the shared embedding, every mix of fields",
  "The tests use one field in its initial state; the embedding is shared mutable state that every evaluation refines.",
  [S+"number_field.cc", H+"number_field.hpp", S+"arb.cc", S+"element.cc", S+"module.cc"],
  [("evaluation at a precision", S+"arb.cc Arb(renf_elem_class, prec)"), ("compositum and coercion", S+"number_field.cc")],
  [("embedding", "the current enclosure of the generator", "e-antic renf, refined by "+S+"arb.cc")], ["Element<NumberField>"])

prop("C16", "Memory is released and the footprint of a steady workload is bounded",
  "Every object is released exactly once when its last user is gone: repeating the same workload does not make memory grow, caches stay within a fixed bound, nothing is used after its release, and no cycle keeps objects alive. This also holds when operations fail with an error or run out of memory half way.",
  ["histories", "fault_sequences"],
  "every workload repeated arbitrarily often, with and without injected failures",
  "Unit tests end before growth is visible and do not look at memory.",
  [S+"real_number.cc", S+"real_number_product.cc", S+"module.cc", S+"arb.cc", S+"arf.cc", S+"element.cc", H+"cereal.hpp", S+"constrained_random_real_number.cc"],
  [("weak registries", S+"*.cc factory()"), ("bounded number of modules and products kept alive", S+"module.cc, "+S+"real_number_product.cc factory()"), ("destructors and clear calls", S+"arb.cc, "+S+"arf.cc")],
  [("live bytes", "memory in use after a round of the workload", "simulated heap")], ["simulated heap"])

prop("C17", "Random reals lie in the requested interval",
  "A random real requested in an interval [a, b] lies in that interval, and one requested for a double rounds to that double, for all endpoints (of any sign, size and precision) and all seeds; without bounds it lies in [0, 1]. Equal requests give equal numbers, different seeds give different ones, and an empty interval or a non-finite request is rejected.",
  ["inputs", "histories", "fault_sequences"],
  "every pair of endpoints, every double, every seed, at every precision and after every history",
  "Tests sample a few intervals and precisions.",
  [S+"constrained_random_real_number.cc", S+"random_real_number.cc"],
  [("common exponent, random mantissa, random tail", S+"constrained_random_real_number.cc random(lower, upper, seed)"), ("neighbouring doubles", S+"constrained_random_real_number.cc random(double)")],
  (), ["RealNumber::random(a, b)", "RealNumber::random(double)"])

prop("C18", "Floors, ceilings and conversions to integers, rationals and doubles are exact",
  "Floor, ceiling and floor division of elements are the exact integers, a conversion to an integer or rational succeeds exactly when the value is one and gives that value, and a conversion to a double gives the double closest to the exact value. This holds for values arbitrarily close to an integer or to the midpoint of two doubles and regardless of what was computed before.",
  ["inputs", "histories"],
  "every element and real, in particular values that agree with an integer or a rounding boundary to many bits, negative values and zero",
  "Tests use small generic values; the error is in the boundary cases.",
  [S+"element.cc", S+"real_number.cc", S+"rational_field.cc", S+"number_field.cc", S+"integer_ring.cc", S+"arf.cc"],
  [("refine until both endpoints agree", S+"element.cc floor, ceil, floordiv, operator double"), ("conversion of reals", S+"real_number.cc operator double")],
  (), ["Element::floor", "Element::ceil", "Element::floordiv", "conversions"])

prop("C19", "Equal values have equal hashes",
  "Values that compare equal have equal hashes, at any time and in any history: the hash of a value does not change while it lives, does not depend on the module an element is represented in, nor on earlier computations. Unequal values are not all mapped to one hash.",
  ["inputs", "histories"],
  "every pair of equal values in different representations and after different histories",
  "Tests hash a value once, in one representation.",
  [S+"element.cc", S+"arf.cc", S+"integer_ring.cc", S+"rational_field.cc", S+"number_field.cc"],
  [("hash of the closest double", S+"element.cc, "+S+"arf.cc std::hash")], (), ["std::hash"])

prop("C20", "The Python layer behaves as the library does",
  "Python objects created by the bindings (pickling, coercion, arithmetic, use from SageMath) have the values and the identity that the underlying library gives them, and survive a round trip through a Python pickle into another process.",
  ["histories", "crash_points", "inputs"],
  "every Python program using the bindings",
  "The Python tests need cppyy and SageMath.",
  ["pyexactreal/src/pyexactreal/__init__.py", "pyexactreal/src/pyexactreal/cppyy_exactreal.py"],
  [("cppyy pythonizations", "pyexactreal/src/pyexactreal/cppyy_exactreal.py"), ("pickling through cereal", H+"cppyy.hpp")], (), ["Python API"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
