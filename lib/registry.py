"""All checks, and what MANIFEST.json says about them."""
import checks_calls
import checks_ent
import checks_gorm
import checks_parse
import checks_scale

CHECKS = {}
CHECKS.update(checks_parse.CHECKS)
CHECKS.update(checks_gorm.CHECKS)
CHECKS.update(checks_ent.CHECKS)
CHECKS.update(checks_calls.CHECKS)
CHECKS.update(checks_scale.CHECKS)

_GEN = "TLA+/TLC: bounded derivation machine of the language (MQGen) checked exhaustively, every derivation replayed into "
TECHNIQUE = {
    "C01": (_GEN + "Parse, plus trace validation of recorded Parse calls against the reference reader (MQGrammar)",
            "all derivations up to the fuel bound of three alphabets; random queries beyond it"),
    "C02": ("TLA+/TLC: trace validation of recorded Parse calls on arbitrary texts against the reference reader (MQGrammar),"
            " and of families of very large texts against their known measures",
            "accept/reject compared with the reader for every text; families of sizes up to 2 million characters"),
    "C03": ("TLA+/TLC: trace validation of groups of spellings of one query; the reader confirms that they are one query",
            "all operator words and separators systematically, random spellings of random queries"),
    "C04": (_GEN + "Parse and Build; recorded print/parse/print histories validated against reader and printer (MQTree)",
            "all derivations up to the fuel bound; random queries and strings beyond it"),
    "C05": ("TLA+/TLC: join law checked on the specification (MQTree), recorded Join calls validated against it",
            "all lists up to length 3 over query classes, random lists"),
    "C06": ("TLA+/TLC: trace validation of recorded gorm statements; the generated condition is read back as SQL (MQSql) and"
            " compared with the query by meaning (MQSem), literals with the bound variables",
            "hostile literals in every position, all operator words, random queries on two models, three dialects"),
    "C07": (_GEN + "SQLite; recorded rows validated against the three-valued evaluation of the query (MQSem)",
            "all derivations up to the fuel bound, random typed queries, random table contents with NULLs"),
    "C08": ("TLA+/TLC: trace validation of recorded rows against the name resolution of the specification (MQSchema)",
            "every column, field, relation and letter-case form of models with colliding names, near misses, random queries on them"),
    "C09": ("TLA+/TLC: session machine (MQSession) checked for all short histories, all of them or a sample replayed into gorm and"
            " SQLite; recorded outcomes of these and of random long histories validated against the machine",
            "all histories of up to three building steps over seven queries; random histories of up to twelve steps"),
    "C10": ("TLA+/TLC: trace validation of recorded ent SQL conditions of three dialects; the text is cut into tokens (MQSql), its"
            " placeholders, quotes and casts checked, the arguments compared with the literals of the query",
            "hostile literals in every position, all operator words, names, numbers of preceding arguments, random queries"),
    "C11": (_GEN + "SQLite and into text of three dialects; recorded rows validated against the evaluation of the query (MQSem),"
            " text read back (MQSql) and compared by meaning, alone and next to other conditions (MQEnt)",
            "all derivations up to the fuel bound, random typed queries, ten surroundings, random tables with NULLs"),
    "C12": ("TLA+/TLC: trace validation of rows recorded from SQLite against the meaning of relation tests on a schema graph (MQEdges)",
            "every chain of up to three edges of a graph with every edge kind, with and without condition; random nested queries and data"),
    "C13": ("TLA+/TLC: machine of the histories of one builder (MQBuilderGen) checked exhaustively, its histories replayed into the"
            " builder; recorded answers validated against MQEnt",
            "all histories of two (thorough: three) calls, wrong and right queries of every kind; random longer ones"),
    "C14": (_GEN + "the entql builder; recorded predicates and the rows ent selects with them validated against the meaning of the query"
            " (MQQl, MQSem)",
            "all derivations up to the fuel bound, random queries, hostile literals; rows on SQLite with NULLs"),
    "C15": (_GEN + "the entql builder; recorded errors and list applications validated against the supported language (MQQl)",
            "all short lists over classes of queries, wrong parts at every place of right queries, random queries and character soup"),
    "C16": ("TLA+/TLC: walk machine (MQVisit) checked for all choices of handlers and failing calls on small trees (MQVisitGen), every"
            " walk replayed into the visitor; recorded walks of random trees validated against the machine",
            "all handler modes of the kinds of eight trees and every failing call; random trees, handlers, failures and cancellations"),
    "C17": ("TLA+/TLC: all interleavings of two walks sharing their handlers (MQGateGen) replayed with gated handlers; answers of all"
            " entry points collected from histories and from goroutines under the race detector, validated to be one per argument"
            " and that of the specification",
            "all call orders of four pairs of walks; random sets of calls from 8 goroutines; schedules of the Go runtime are sampled"),
    "C18": ("TLA+/TLC: families of queries of every size (MQScale); TLC checks that their measures grow linearly and that the printer"
            " and reader agree on the small members (MQScaleGen); recorded answers for members of up to 2 million characters validated"
            " against the measures (MQScaleTrace)",
            "28 families, all sizes up to a dozen (thorough: 40), sizes around powers of two and the limits, all entry points"),
    "C19": ("TLA+/TLC: trace validation of what every node of recorded trees tells about itself against the reference reader (MQCallTrace)",
            "all derivations up to the fuel bound, random queries; every node of each tree, asked twice"),
}
