"""Writes properties.jsonl and MANIFEST.json (the properties' texts live here)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TR = "abstract interpretation of the type-resolved MIR (trace partitioning over expression kinds, collection lengths and number facts)"

P = []


def prop(id, title, statement, text, why, files, mech, technique=None, note="", observe=None, state=None, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, tech=technique, note=note))
    if observe:
        P[-1]["anchors"]["observe_at"] = observe
    if state:
        P[-1]["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]


FEW = "the tests check a handful of literal expressions and compare with a hand-written result; "
DOM = "Domain: no division by a number that is zero. "

prop(
    "C01",
    "Adding expressions denotes their mathematical sum",
    "The sum of any list of expressions (none, one or many, of any kind and in any mixture of integers, reals, fractions, variables, products, powers, logarithms and nested sums) denotes exactly the mathematical sum of the operands (real parts up to floating-point rounding). No operand is lost, counted twice or changed, whichever way the sum is written: as a list or with the addition operator on owned or borrowed operands.",
    "every list of expressions of every kind, with every number value and every pattern of equal operands",
    FEW + "the combinations of kinds, numeric special cases (0, 1, -1, opposites) and nesting are not enumerated",
    ["src/arithmetics/addition.rs"],
    [("flattening, number folding and fraction folding of addends", "src/arithmetics/addition.rs Expression::addition"), ("operator forms", "src/arithmetics/addition.rs impl Add")],
)
prop(
    "C02",
    "Multiplying expressions denotes their mathematical product",
    "The product of any list of expressions (none, one or many, of any kind, including numbers, reciprocals, powers and nested products) denotes exactly the mathematical product of the operands (real parts up to floating-point rounding). No factor is lost, repeated or changed, whichever way the product is written: as a list or with the multiplication operator on owned or borrowed operands.",
    "every list of expressions of every kind, with every number value and every pattern of equal operands",
    FEW + "cancellation between numerators and denominators has many special cases that only particular numbers reach",
    ["src/arithmetics/multiplication.rs"],
    [("flattening, number folding and fraction reduction of factors", "src/arithmetics/multiplication.rs Expression::multiplication"), ("operator forms", "src/arithmetics/multiplication.rs impl Mul")],
)
prop(
    "C03",
    "Differences, quotients and negations denote what they say",
    "Subtracting, dividing and negating expressions gives results that denote exactly the mathematical difference, quotient and opposite of the operands, for operands of every kind and for every ownership form of the operators. Division by the number zero is outside the domain.",
    "every pair of expressions of every kind and every number value (divisor not the number zero)",
    FEW + "special cases (same operands, divisor 1 or -1, integer quotients) interact with operand kinds",
    ["src/arithmetics/subtraction.rs", "src/arithmetics/division.rs"],
    [("subtraction", "src/arithmetics/subtraction.rs Expression::subtraction"), ("division", "src/arithmetics/division.rs Expression::division"), ("negation", "src/arithmetics/subtraction.rs impl Neg")],
)
prop(
    "C04",
    "Powers and logarithms denote what they say",
    "Raising an expression to an expression and taking the logarithm of an expression in a base give results that denote exactly the mathematical power and logarithm of the operands, for operands of every kind and every number value. Conventions: anything but zero to the power zero is one, and zero to any power other than zero is zero; zero to the power zero is left open.",
    "every pair of expressions of every kind, every integer and real value of base, exponent and argument",
    FEW + "numeric special cases (exponents 0, 1, -1, negative or huge exponents, exact and inexact logarithms, powers of powers) are sampled at a few literals",
    ["src/exponential/power.rs", "src/exponential/logarithm.rs"],
    [("power", "src/exponential/power.rs Expression::power"), ("logarithm", "src/exponential/logarithm.rs Expression::logarithm")],
)
prop(
    "C05",
    "Expansion preserves the value of an expression",
    "Expanding an expression, and each expansion rule on its own (distributing products over sums, integer powers of sums, powers of products), returns an expression that denotes the same value as the original, for every expression.",
    "every expression of every kind, collections of any mixture of items, every number value",
    FEW + "distributing needs every pairing of addends; tests use two or three addends of variables",
    ["src/manipulation/expand.rs", "src/manipulation/expansion_rules/multiplicative_distributive.rs", "src/manipulation/expansion_rules/power_distributive_addition.rs", "src/manipulation/expansion_rules/power_distributive_multiplication.rs"],
    [("recursion over the operands", "src/manipulation/expand.rs Expression::expand"), ("distribution", "src/manipulation/expansion_rules/multiplicative_distributive.rs"), ("integer powers of sums", "src/manipulation/expansion_rules/power_distributive_addition.rs")],
)
prop(
    "C06",
    "Simplification and every rule preserve the value of an expression",
    "Simplifying an expression, and applying any single simplification rule to it (collecting equal addends, collecting equal bases, adding and multiplying fractions, merging algebraic denominators, inverting powers of logarithms), returns an expression that denotes the same value as the original, for every expression.",
    "every expression of every kind, collections of any mixture of items, every number value and every pattern of equal sub-expressions",
    FEW + "a rule applied to expressions it is not meant for must leave the value alone as well, and no test looks at those",
    [
        "src/manipulation/simplifiable.rs",
        "src/manipulation/simplification_rules/factoring/additive_common_addend.rs",
        "src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs",
        "src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs",
        "src/manipulation/simplification_rules/rational/rationals_addition.rs",
        "src/manipulation/simplification_rules/rational/rationals_multiplication.rs",
        "src/manipulation/simplification_rules/identities/inverse_power_log.rs",
    ],
    [("recursion and order of the rules", "src/manipulation/simplifiable.rs Expression::simplify"), ("each rule", "src/manipulation/simplification_rules/**/*.rs Rule::apply")],
)
prop(
    "C07",
    "Fractions of integers are exact and kept in lowest terms",
    "Adding, subtracting, multiplying and dividing fractions, converting them to expressions and comparing two of them for equality agree exactly with rational arithmetic for all integers, and the text of a fraction shows numerator and denominator in lowest terms. An integer, a reciprocal of an integer and a product of one integer with reciprocals of integers are recognised as fractions with the right value, and no other expression is read as a fraction with a value it does not have.",
    "all integer numerators and non-zero denominators of any sign and size; every expression for the recognition",
    "the tests have a few small positive fractions; signs, common divisors and mixed products need all integers",
    ["src/manipulation/simplification_rules/rational/rationals.rs"],
    [("construction and reduction", "rationals.rs Rational::from"), ("recognition", "rationals.rs Rational::from_expression"), ("arithmetic", "rationals.rs impl Add/Sub/Mul/Div")],
    state=[("numerator, denominator", "the fraction in lowest terms", "rationals.rs struct Rational")],
)
prop(
    "C08",
    "Integer, real and variable symbols compute and convert correctly",
    "Arithmetic on integer and real symbols (sum, difference, product, quotient, remainder, greatest common divisor, least common multiple, opposite, power, sign test), for owned and borrowed operands alike, gives the mathematical result; integer quotients and remainders truncate and a negative exponent gives no power. Constructing a symbol and reading its value or label back, and converting it to a real or to an expression, keeps the value, and an integer value is reported exactly when it fits the machine integer.",
    "all integers of any size, all reals, all labels, every ownership form",
    "the tests call each operation with one or two small literals, and only some of the ownership forms",
    ["src/symbols/integer.rs", "src/symbols/real.rs", "src/symbols/variable.rs", "src/base/symbol.rs"],
    [("integer operations", "src/symbols/integer.rs"), ("real operations", "src/symbols/real.rs"), ("labels", "src/symbols/variable.rs")],
)
prop(
    "C09",
    "Every ownership form of an operator gives the same result",
    "For each of the operators +, -, * and / on expressions and on symbols, the four combinations of owned and borrowed operands give the same result as the named operation with the operands in the same order; likewise both forms of negation, and the method forms of power and logarithm agree with the constructors.",
    "all operands, every ownership form of every operator",
    "most ownership forms are never called by a test, and the rest with one literal each",
    ["src/arithmetics/addition.rs", "src/arithmetics/subtraction.rs", "src/arithmetics/multiplication.rs", "src/arithmetics/division.rs", "src/symbols/integer.rs", "src/symbols/real.rs", "src/exponential/power.rs", "src/exponential/logarithm.rs"],
    [("operator impls", "src/arithmetics/*.rs impl Add/Sub/Mul/Div/Neg"), ("symbol operator impls", "src/symbols/*.rs")],
)
prop(
    "C10",
    "Equality of expressions is structural equality",
    "Two expressions are equal exactly when they have the same kind and equal parts (for sums and products: the same items whatever the order they were given in; for powers, logarithms and functions: equal argument and equal modifier; for symbols: equal value). Equality is reflexive, symmetric and transitive for all expressions and symbols, including reals that are infinite, not a number or signed zeros.",
    "all pairs and triples of expressions, of every kind and nesting, all float values",
    "laws over pairs and triples of arbitrary trees; tests compare some literal pairs",
    ["src/base/expression.rs", "src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/base/operation.rs", "src/symbols/integer.rs", "src/symbols/real.rs", "src/symbols/variable.rs", "src/manipulation/expression_equality.rs", "src/manipulation/ordeable.rs"],
    [("equality of expressions", "src/manipulation/ordeable.rs"), ("equality of collections", "src/base/commutative_association.rs"), ("equality of symbols", "src/symbols/*.rs")],
)
prop(
    "C11",
    "The order of expressions is a total order that agrees with equality",
    "Comparing any two expressions (or any two symbols of one type) gives a total order: exactly one of less, equal and greater holds, swapping the operands reverses the answer, the order is transitive, and it answers equal exactly when the two are equal. The partial comparison always answers, and answers the same. Two integers, and two reals, are ordered as their values are.",
    "all pairs and triples of expressions and symbols, all float values",
    "transitivity and antisymmetry quantify over pairs and triples of arbitrary trees; tests order a few literal pairs",
    ["src/manipulation/ordeable.rs", "src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/base/operation.rs", "src/symbols/integer.rs", "src/symbols/real.rs", "src/symbols/variable.rs"],
    [("order of expressions", "src/manipulation/ordeable.rs"), ("order of collections", "src/base/commutative_association.rs"), ("order of symbols", "src/symbols/*.rs")],
)
prop(
    "C12",
    "Equal expressions have equal hashes",
    "Whenever two expressions, two symbols of one type, or two collections or operations are equal, they feed the same data to a hasher, so that they meet in hash maps and sets. This includes reals: zero and negative zero, and not-a-number values, hash alike when they compare alike.",
    "all pairs of equal expressions and symbols, all float values",
    "quantifies over all equal pairs; the tests never compare hashes",
    ["src/base/expression.rs", "src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/base/operation.rs", "src/symbols/integer.rs", "src/symbols/real.rs", "src/symbols/variable.rs"],
    [("derived and manual hashing", "src/base/*.rs, src/symbols/*.rs impl Hash")],
)
prop(
    "C13",
    "Results are in canonical form",
    "Every constructor, operator, expansion, simplification and rule returns canonical expressions: a sum or product has at least two items, never contains another sum or product of its own kind, no neutral or absorbing number, and at most one integer and one real item; a power never has a power as its base, nor base or exponent 0 or 1, nor is it left unevaluated between an integer and an integer (other than a reciprocal) or between numbers one of which is real.",
    "every operand of every kind (themselves canonical), every number value",
    "canonical form must survive every combination of operand kinds and number values; the tests look at a few results",
    ["src/arithmetics/addition.rs", "src/arithmetics/multiplication.rs", "src/arithmetics/subtraction.rs", "src/arithmetics/division.rs", "src/exponential/power.rs", "src/exponential/logarithm.rs", "src/manipulation/expand.rs", "src/manipulation/simplifiable.rs"],
    [("flattening and folding", "src/arithmetics/addition.rs, src/arithmetics/multiplication.rs"), ("power of power, numeric powers", "src/exponential/power.rs")],
)
prop(
    "C14",
    "Operand order does not matter for sums and products",
    "Reordering the operands of a sum or of a product gives an equal expression, for any operands of any kind (real parts up to floating-point rounding).",
    "all lists of operands and all their permutations",
    "tests commute two or three literal variables",
    ["src/arithmetics/addition.rs", "src/arithmetics/multiplication.rs", "src/base/commutative_association.rs"],
    [("folding of the operand list", "src/arithmetics/addition.rs, src/arithmetics/multiplication.rs"), ("sorted storage", "src/base/commutative_association.rs")],
)
prop(
    "C15",
    "No operation panics on valid operands",
    "Building, comparing, expanding and simplifying expressions, and applying any rule, never panics, overflows or recurses without end for operands in the domain: every kind of expression, integers of any size and any real value including infinities and not-a-number. Division by the number zero is the only thing outside the domain.",
    "every operand of every kind, integers of any size, every float",
    "panics hide in conversions to machine numbers, unwraps and unexpected shapes that the tests' small literals never reach",
    ["src/arithmetics", "src/exponential", "src/manipulation", "src/symbols"],
    [("unwrap, expect and conversion sites", "src/**/*.rs"), ("recursion in powers", "src/exponential/power.rs")],
)
prop(
    "C16",
    "Integer results stay exact",
    "No operation on expressions turns integers into reals or rounds them: a real number appears in a result only when an operand contains a real number, and an integer in a result is computed by exact integer arithmetic whatever its size (or checked exactly when it was estimated in floating point).",
    "every operand of every kind, integers of any size",
    "rounding starts beyond the sizes the tests use (2^53 and more)",
    ["src/arithmetics", "src/exponential", "src/manipulation", "src/symbols/integer.rs"],
    [("big integer arithmetic", "src/symbols/integer.rs"), ("logarithm of integers", "src/exponential/logarithm.rs")],
)
prop(
    "C17",
    "Comparison relations between expressions are coherent and sound",
    "For any two expressions, if they are comparable then exactly one of equal, greater and lesser holds, and not-equal, greater-or-equal and lesser-or-equal follow from these as usual; if they are not comparable, none of the six holds. A relation that holds is true of the values the expressions denote, and two integers, or two reals, are always comparable.",
    "all pairs of expressions and all number values",
    "tests compare a few literal pairs with some of the six relations",
    ["src/manipulation/expression_comparison.rs", "src/manipulation/expression_equality.rs"],
    [("sign of the simplified difference", "src/manipulation/expression_comparison.rs")],
)
prop(
    "C18",
    "The text of an expression shows every component",
    "The text form of an expression of any kind contains every operand in full, exactly once, separated from its neighbours and enclosed so that nested operands do not run into the surrounding text; different two-operand operations on the same operands have different texts, and so have the two functions. The label of a number is the number in full.",
    "every kind of expression, any number of items, any operands",
    "tests print a few literals; the number of items and the operands are arbitrary",
    ["src/base/expression.rs", "src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/symbols/integer.rs", "src/symbols/real.rs"],
    [("text of expressions", "src/base/expression.rs impl Display"), ("labels", "src/symbols/*.rs label")],
)
prop(
    "C20",
    "Results depend on nothing but the operands",
    "Every operation gives the same result for the same operands in every call, thread, process and run: no result depends on the iteration order of an unordered (randomly seeded) collection, on memory addresses, the clock, the environment, or on state kept between calls.",
    "all operands, all hash seeds, all earlier calls",
    "a test sees one hash seed and one call history at a time and cannot tell which others would differ",
    ["src/manipulation/simplification_rules/factoring/additive_common_addend.rs", "src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs", "src"],
    [("hash maps drained into sorted collections", "src/manipulation/simplification_rules/factoring/*.rs")],
    technique="effect analysis over every callee and constant of the crate, and abstract interpretation of each entry point under several iteration orders",
    over=("inputs", "histories"),
)
prop(
    "C21",
    "Expansion distributes everything",
    "In the expansion of an expression, however deeply nested (inside products, powers, exponents and logarithms), no product has a sum among its factors, and no sum is raised to an integer power other than minus one or to a product with such an integer factor. Exponents beyond the machine range are excepted.",
    "all expressions built from sums, products, powers and logarithms of variables and numbers",
    "tests expand two or three sums of two variables",
    ["src/manipulation/expand.rs", "src/manipulation/expansion_rules/multiplicative_distributive.rs", "src/manipulation/expansion_rules/power_distributive_addition.rs"],
    [("recursion over operands", "src/manipulation/expand.rs"), ("all sums among the factors", "src/manipulation/expansion_rules/multiplicative_distributive.rs")],
    note="Decided on schematic inputs with symbolic variables and numbers, up to four sums and exponents up to the unrolling bound.",
)
prop(
    "C22",
    "Simplification collects like terms",
    "In the simplified form of a sum of numeric multiples of products of powers, no two addends are integer multiples of one expression; in the simplified form of a product, no two factors are powers of one base; and the fractions of integers that are added or multiplied together end up as one fraction in lowest terms. This holds at every depth: inside powers, exponents and logarithms.",
    "all sums and products of integer multiples, integer and symbolic powers of variables, sums and logarithms, all integers",
    "tests simplify a few literal sums with one repeated term",
    ["src/manipulation/simplifiable.rs", "src/manipulation/simplification_rules/factoring/additive_common_addend.rs", "src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs", "src/manipulation/simplification_rules/rational/rationals_addition.rs", "src/manipulation/simplification_rules/rational/rationals_multiplication.rs"],
    [("counting equal addends", "additive_common_addend.rs"), ("adding exponents of equal bases", "multiplicative_common_factor.rs"), ("order of the rules", "src/manipulation/simplifiable.rs")],
    note="Decided on schematic inputs with symbolic variables and numbers.",
)
prop(
    "C26",
    "Collections and operations hand back exactly what they hold",
    "The items of a sum or product collection are exactly the expressions it was built from, and each of its filters (reals, integers, reciprocal integers, rationals, non-rationals, symbolics, or a caller's predicate) returns exactly the items that qualify, with their multiplicity; finding one item succeeds exactly when one qualifies, and mapping applies the function to each item once. The argument and modifier of a power or logarithm, and the argument of a function, are the expressions they were built with.",
    "all collections of all expressions, all predicates and functions",
    "the filters are exercised only indirectly and with a few literal items",
    ["src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/base/operation.rs"],
    [("filters", "src/base/commutative_association.rs"), ("accessors", "src/base/associative_operation.rs, src/base/operation.rs")],
)

prop(
    "C25",
    "Expanding is idempotent",
    "Expanding an expanded expression changes nothing: the expansion of an expression is equal to its own expansion, whatever sums, products, powers, exponents and logarithms the expression is made of. Exponents beyond the machine range are excepted.",
    "all expressions built from sums, products, powers and logarithms of variables and numbers",
    "a test expands a few literals once; whether one pass reaches everything depends on how the sums are nested",
    ["src/manipulation/expand.rs", "src/manipulation/expansion_rules/multiplicative_distributive.rs", "src/manipulation/expansion_rules/power_distributive_addition.rs", "src/manipulation/expansion_rules/power_distributive_multiplication.rs"],
    [("recursion over operands", "src/manipulation/expand.rs"), ("rules", "src/manipulation/expansion_rules/*.rs")],
    note="Decided on schematic inputs with symbolic variables and numbers.",
)
prop(
    "C27",
    "The grouping of operands does not matter",
    "A sum (a product) of operands some of which are first added up (multiplied) by themselves, in whatever grouping, is equal to the sum (the product) of all the operands at once; and a power or a logarithm built again from the base and exponent, or argument and base, of a power or logarithm that was returned is equal to it. Operands with real numbers are excepted from the first part, as rounding depends on the grouping.",
    "all operands without reals, all groupings",
    "tests add up literals in one or two groupings",
    ["src/arithmetics/addition.rs", "src/arithmetics/multiplication.rs", "src/exponential/power.rs", "src/exponential/logarithm.rs", "src/base/commutative_association.rs"],
    [("flattening", "src/arithmetics/addition.rs, src/arithmetics/multiplication.rs"), ("nested powers", "src/exponential/power.rs")],
)
prop(
    "C28",
    "Differences are sums of opposites, quotients are products of reciprocals",
    "The difference of a and b is equal to (the same expression as) the sum of a and the product of minus one and b; and the quotient of a and b is equal to the product of a and the power of b with the exponent minus one, when b is not a number. Operands with real numbers are excepted.",
    "all operands without reals",
    "tests compare a few literals",
    ["src/arithmetics/subtraction.rs", "src/arithmetics/division.rs", "src/arithmetics/addition.rs", "src/arithmetics/multiplication.rs"],
    [("opposite", "src/arithmetics/subtraction.rs"), ("reciprocal", "src/arithmetics/division.rs")],
)
prop(
    "C29",
    "Names of variables carry no meaning",
    "Results do not depend on what the variables are called: building, comparing, expanding and simplifying use the label of a variable only to tell it from other variables and to order them, no label is treated specially, and no result has a variable that no operand has. Renaming the variables of the operands, keeping their order, renames those of the result.",
    "all labels, all operands",
    "tests use a handful of one letter labels",
    ["src/symbols/variable.rs", "src/base", "src/manipulation", "src/arithmetics", "src/exponential"],
    [("label of a variable", "src/symbols/variable.rs"), ("comparison of symbols", "src/base/symbol.rs, src/base/expression.rs")],
    technique="abstract interpretation with labels tracked as opaque atoms: any operation on a label other than copying and comparing two of them is reported",
)

NA = [
    (
        "C19",
        "Expanding and simplifying terminate on every expression",
        "Building, expanding and simplifying any finite expression terminates.",
        "all finite expressions",
        "a test that hangs shows one expression; termination is about all",
        ["src/manipulation/expand.rs", "src/manipulation/simplifiable.rs", "src/exponential/power.rs"],
        "Needs a ranking argument over rewriting results (simplify recurses on the expansion of its operand, which is larger), which no syntactic measure on the code decides without false alarms; the endless recursions that are visible within the interpretation bound are reported by C15.",
    ),
    (
        "C23",
        "Expressions with equal values are found equal",
        "Two expressions that denote the same function of their variables are found equal after simplification.",
        "all pairs of expressions",
        "quantifies over all pairs of equivalent expressions",
        ["src/manipulation/expression_equality.rs"],
        "Completeness of normalisation is a property of the set of rewriting rules, not of the shape of the code, is undecidable for this language of expressions, and the tree does not claim it; C17 decides soundness only.",
    ),
    (
        "C24",
        "Real results are within rounding of the mathematical result",
        "Every real number in a result differs from the mathematical result by no more than the rounding of its last operation.",
        "all float operands",
        "quantifies over all floats",
        ["src/symbols/real.rs"],
        "A bound on accumulated floating point error quantifies over run-time magnitudes; the analysis treats reals as exact numbers with special values, and states so.",
    ),
    (
        "C30",
        "Simplifying is idempotent",
        "Simplifying a simplified expression changes nothing.",
        "all expressions",
        "quantifies over all expressions",
        ["src/manipulation/simplifiable.rs"],
        "The tree does not have this property (half of a plus half of a becomes a product with an unreduced fraction, which a second pass reduces; two known findings of C22 are of this kind), one pass is all that is promised, and what one pass must reach is decided by C22. Listing exceptions by their values would make a list, not a rule.",
    ),
]

LEVEL_NOTE = (
    "Static abstract interpretation of the current MIR; every public entry and rule is partitioned by kinds, lengths (bounded), equalities and number facts. "
    "Within the bounds each partition is judged by exact term identity; beyond them, and where a partition is undecided, nothing is claimed. "
    "Library calls are modelled by hand and calls to public constructors are summarised by the denotation checked for them."
)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in P:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            fh.write(json.dumps(q) + "\n")
        for i, t, s, q, w, files, why in NA:
            fh.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": q}, "why_tests_cant": w, "anchors": {"files": files, "mechanism": []}}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "./check %s quick" % p["id"],
                "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": p["tech"] or TR,
                "level": "other",
                "level_note": (p["note"] + " " if p["note"] else "") + LEVEL_NOTE,
            }
            for p in P
        ],
        "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
        "notes": "No hooks. The texts of the properties live in engine/meta.py, which writes properties.jsonl and this file.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
