BM = M + "base_models.py"
HM = M + "helpers.py"

P["C01"] = ("Names in named maps: exactly letters, digits, '-' and '_'",
    "In every named map of a document (root servers, channels and operations, every map under components, the messages and parameters of a channel, and so on) an entry is accepted if and only if its name is a non-empty string of ASCII letters, digits, hyphens and underscores, whatever its length and whichever other entries are present. Accepted names are kept and written out unchanged.",
    [I], "every name, every named map, parsed alone or inside a document, built from raw data or from objects",
    "Tests try a handful of good and bad names on a few maps; the rule is about every character at every position and every map, including line ends, other scripts and very long names.",
    [BM, HM, M + "components.py"], [("key pattern check on every map", HM + ": validate_patterned_key"), ("after-validator of the map base class", BM + ": PatternedRootModel")],
    [("entries of a map", "name to object", BM + ": PatternedRootModel.root")], ["result of parsing or constructing", "serialized document"])

P["C02"] = ("Named maps behave as insertion-ordered dictionaries that stay valid",
    "After any sequence of item assignments, deletions, lookups, membership tests and iterations, a named map agrees with an insertion-ordered dictionary on size, order, membership and stored entries, and a missing name raises KeyError. An item assignment validates name and value exactly as construction does, stores an object of the map's kind or a reference, and leaves the map unchanged when it is refused.",
    [HI, I], "every sequence of operations on every named map, every name, raw values, objects, references and invalid values",
    "Tests perform single fixed operations on two or three maps; the claim is about sequences of them with arbitrary names.",
    [BM], [("mapping methods", BM + ": PatternedRootModel.__setitem__ and neighbours")], [("entries of a map", "name to object", BM + ": PatternedRootModel.root")],
    ["len, in, iteration, item access", "serialized map"])

P["C03"] = ("Unknown fields: extensions where allowed, refused elsewhere, never lost",
    "Objects that may be extended accept an unknown field if its name is 'x-' followed by one or more ASCII letters, digits, '.', '-' or '_', and refuse every other unknown ASCII field name; objects that may not be extended (references and nearly all binding objects) refuse every unknown field; schema objects and Kafka topic configurations accept any. This holds when parsing, inside documents and when assigning attributes, and an accepted field is kept with its value in the serialized output.",
    [I, HI], "every object kind, every unknown field name (names with letters outside ASCII after 'x-' are left open), any position among other fields",
    "Tests use a few extension names on a few kinds; the rule covers all kinds, all names and combinations with valid extensions before and after.",
    [BM, M + "schema.py", M + "bindings/"], [("extension name check", BM + ": ExtendableBaseModel.validate_extensions"), ("extra='forbid'", BM + ": NonExtendableBaseModel")],
    [("extra fields", "unknown fields with their values", "pydantic's extra store")], ["result of parsing or assigning", "serialized object"])

P["C04"] = ("Only well-formed 3.x.y specification versions are accepted",
    "A document's specification version is accepted if and only if it is three dot-separated runs of ASCII digits of which the first has the value 3, optionally followed by '-' and one or more ASCII letters, digits, '_', '.' or '-'. The same rule holds for parsing, construction, the builder and assignment, and the version is kept and written unchanged.",
    [I], "every version text", "Tests list about a dozen versions; the rule must hold for every text, including trailing line ends, non-ASCII digits and long suffixes.",
    [M + "asyncapi.py"], [("version check", M + "asyncapi.py: AsyncAPI3.validate_asyncapi_version")], [], ["result of parsing, constructing, building or assigning"])

P["C05"] = ("Channel parameters require an address with an expression",
    "A channel that has a parameters map, even an empty one, is accepted if and only if its address is present, not null and contains an expression: '{', at least one character other than '}', then '}'. A channel without parameters is accepted with any or no address; the rule also holds after assignments to either field and for channels anywhere in a document.",
    [I, HI], "every address text, parameters absent, null, empty or given, any order of assignments",
    "Tests use a few addresses; the rule quantifies over every address and over assignment orders.",
    [M + "channel.py"], [("address expression check", M + "channel.py: Channel.validate_parameters...")], [], ["result of parsing or assigning"])

P["C06"] = ("Security schemes carry exactly the fields their type needs and allows",
    "A security scheme is accepted if and only if its type is one of the thirteen of the specification and: apiKey has 'in' user or password; httpApiKey has a name and 'in' query, header or cookie; http has a scheme; oauth2 has flows; openIdConnect has its URL; a bearer format appears only with type http and scheme exactly 'bearer'; scopes appear only with oauth2 or openIdConnect. Null counts as absent, field order does not matter, and the rule holds for parsing, construction, assignment and at every place a scheme can stand in a document.",
    [I, HI], "every combination of the eight fields, every type text, every scheme text, single assignments to valid schemes",
    "Tests check selected combinations; the rule is a relation over eight fields, thousands of combinations and free texts.",
    [M + "security.py"], [("type rules", M + "security.py: SecurityScheme after-validator")], [], ["result of parsing, constructing or assigning"])

P["C07"] = ("OAuth flows carry the URLs their kind needs",
    "An OAuth flows object is accepted if and only if every present flow has the URLs its kind needs: implicit the authorization URL, password and client credentials the token URL, authorization code both, and every flow has available scopes mapping names to text. The rule holds for each flow independently of the others, for parsing, construction, assignment, and for flow objects changed before being embedded.",
    [I, HI], "every combination of the four flows with and without each URL, flow objects built, assigned or mutated",
    "Tests check single flows; the rule must hold for each flow under every combination of the others.",
    [M + "security.py"], [("flow rules", M + "security.py: OAuthFlows after-validator")], [], ["result of parsing, constructing or assigning"])

P["C08"] = ("Dependencies between fields of protocol bindings are enforced",
    "An AMQP channel binding has an exchange and no queue when 'is' is routingKey, a queue and no exchange when it is queue; an IBM MQ channel binding never has both queue and topic and has a queue when its destination type is queue; IBM MQ message headers appear only with type binary (default string); a Kafka schema registry vendor appears only with a registry URL; a Solace destination has exactly the one of queue and topic that its destination type names. Everything else about these fields is accepted, null counts as absent, and the rules hold for parsing, construction, assignment, embedding of changed objects and every place in a document.",
    [I, HI], "every combination of absent, null and given fields, every selector text, sequences of assignments",
    "Tests check chosen combinations in isolation; the rules are relations over several fields and histories of assignments.",
    [M + "bindings/amqp.py", M + "bindings/ibmmq.py", M + "bindings/kafka.py", M + "bindings/solace.py"],
    [("after-validators of the binding objects", "same files")], [], ["result of parsing, constructing or assigning"])

P["C09"] = ("Documented numeric ranges and length limits of bindings are exact",
    "A number is accepted if and only if it lies in its documented range, limits included: AMQP expiration and IBM MQ expiry at least 0, IBM MQ heart beat 0 to 999999 and maximum message length 0 to 104857600, Kafka partitions and replicas at least 1, Solace priority 0 to 255. A text is accepted if and only if it is within its limit, limit included: AMQP exchange and queue names and NATS queue 255 characters, IBM MQ object names 48 and topic string 10240 characters, Solace client name 160 bytes of UTF-8. Accepted values are kept unchanged.",
    [I], "every integer; texts of every length near the limits, with characters of every UTF-8 width",
    "Tests sample one value on each side; the claim is exactness at every integer and length, for parsing, construction and assignment.",
    [M + "bindings/amqp.py", M + "bindings/ibmmq.py", M + "bindings/kafka.py", M + "bindings/nats.py", M + "bindings/solace.py"],
    [("field validators and maximum lengths", "same files")], [], ["result of parsing, constructing or assigning"])

P["C10"] = ("Message examples have content; correlation identifiers point into the message",
    "A message example is accepted if and only if its headers or its payload is present and not null; false, zero, empty text and empty collections count as present. A correlation identifier's location is accepted if and only if it starts with '$message.', whereas a reply address accepts any location. Both rules hold for parsing, construction, assignment and at every place in a document.",
    [I, HI], "every combination of headers and payload values including all falsy ones, every location text, sequences of assignments",
    "Tests use ordinary payloads and two locations; the rules hold for every value, in particular falsy payloads, and for every text.",
    [M + "message.py", M + "security.py"], [("example check", M + "message.py: MessageExample after-validator"), ("location check", M + "security.py: CorrelationID")], [], ["result of parsing or assigning"])

P["C11"] = ("Contact e-mail addresses are accepted exactly when well formed",
    "A contact's e-mail address is accepted if and only if it is one or more characters from ASCII letters, digits and '._%+-', then '@', then one or more characters from ASCII letters, digits, '.' and '-', then '.' and two or more ASCII letters, with no two consecutive dots anywhere and nothing else around it. An accepted address is kept and written unchanged.",
    [I], "every text", "Tests list some addresses; the rule is about every text, including trailing line ends and non-ASCII letters.",
    [HM, M + "info.py"], [("e-mail check", HM + ": EmailStr")], [], ["result of parsing, constructing or assigning"])

P["C12"] = ("References resolve to the object at their path, through chains, or fail cleanly",
    "A local reference '#/a/b/...' resolves to exactly the object that stands at that path of the document by its document field names and map names, following further references to the final object; it is refused with a ValueError when anything on the way is missing or the chain returns to itself. References starting with 'http://' or 'https://' are accepted unchecked, and any other text not starting with '#' is refused. Resolution always ends, changes nothing and does not depend on earlier resolutions.",
    [I, CF, HI], "every pointer over map names and field names, every chain and cycle among entries of every components map and across maps, every text of the reference",
    "Tests resolve fixed pointers and one or two cycles; the claim covers arbitrary reference graphs, names and texts. Python spellings of field names, list indexes and paths with empty segments are left open.",
    [V + "utils.py"], [("resolution and cycle detection", V + "utils.py: resolve_reference")], [("visited references", "references already followed in this chain", V + "utils.py")], ["result of resolving", "verdict of the reference validator"])

P["C13"] = ("The reference validator accepts exactly documents whose references fit",
    "With the unified reference validator, a document is accepted if and only if every reference object in it, wherever one may stand and however many others there are, is external or leads through local references to an existing object of a kind allowed at that position. Names chosen by the user do not matter, even when they look like field names. The verdict is the same when the validator is called, listed in the document's extra validators, or used by the builder.",
    [I, CF], "all positions a reference can stand at (several hundred), every kind of target, missing and external targets, chains, pairs of references, names",
    "Tests check a table of paths with fixed names; the claim is over all positions, all target kinds, all names and combinations of references.",
    [V + "unified_references_validator.py", V + "utils.py"], [("traversal of the document", V + "unified_references_validator.py"), ("expected kinds by position", V + "unified_references_validator.py: REFERENCE_TYPE_MAPPINGS")],
    [], ["validator verdict", "result of parsing with extra validators", "builder"])

P["C14"] = ("The tag reference validator accepts exactly references to the tag catalogue",
    "With the tag reference validator, a document is accepted if and only if every tag reference in it, wherever one may stand, either does not start with '#' or is '#/components/tags/' followed by the name of an existing entry of the document's tags. The validator changes nothing, returns the document it was given, and gives the same verdict when called, listed in the document's extra validators or given to the builder. References of other kinds, and references inside extensions, do not matter to it.",
    [I, CF], "every text of the reference, every covered position (any list index or map entry, inline or below other objects), every catalogue content, names of other entries",
    "Tests check fixed names at some positions; the rule is about every text (repeated prefixes, longer paths, other maps) at every covered position and any list index.",
    [V + "tags_ref_validator.py"], [("collection and check of tag references", V + "tags_ref_validator.py: TagsRefValidator")], [("known tag names", "entries of components.tags", V + "tags_ref_validator.py")], ["validator verdict", "result of parsing or building with the validator"])

P["C15"] = ("The externalDocs reference validator accepts exactly references to its catalogue",
    "With the external documentation reference validator, a document is accepted if and only if every external documentation reference at the positions documented as verified either does not start with '#' or is '#/components/externalDocs/' followed by the name of an existing entry of the document's external docs. The validator changes nothing, returns the document it was given, and gives the same verdict when called, listed in the document's extra validators or given to the builder.",
    [I, CF], "every text of the reference, every documented position (any list index or map entry), every catalogue content, names of other entries",
    "Tests check fixed names at some positions; the rule is about every text at every documented position and any list index.",
    [V + "external_docs_ref_validator.py", "docs/extra_validators/references.md"], [("collection and check of references", V + "external_docs_ref_validator.py")], [("known names", "entries of components.externalDocs", V + "external_docs_ref_validator.py")],
    ["validator verdict", "result of parsing or building with the validator"])

P["C16"] = ("What is parsed is what is written, and it parses back to the same",
    "Writing a parsed object by document names gives every field and extension that was given, with its value unchanged (free-form values with all their nulls, names and order included), plus the documented defaults of the others, and nothing else; optional fields that are null are left out. Parsing what was written is accepted and gives an equal object that is written the same. This holds for every kind of object alone and at every place of a document.",
    [I], "every kind of object, every field and combination of extensions around it, every alternative of its type, free-form values",
    "Tests round-trip fixed samples; the claim is for every field of every kind with arbitrary values, including values that look like field names or are empty.",
    [M, M + "bindings/"], [("aliases, exclusion rules and unions of all models", M)], [], ["serialized object", "object parsed from it"])

P["C17"] = ("Assigning a field is parsing with it changed; refused assignments change nothing",
    "Assigning a value to a field of an object is accepted if and only if parsing the object with that field replaced is, and then the object is what that parsing gives. A refused assignment leaves the object, its neighbours and the document around it exactly as they were. This holds after any sequence of assignments.",
    [I, HI], "every field of every kind of object, values of its type and of others, sequences of assignments, objects alone and inside documents",
    "Tests assign single bad values on a few kinds and do not look at the object afterwards.",
    [BM, M], [("validated assignment, restored on refusal", BM + ": AtomicAssignmentModel.__setattr__"), ("rules between fields", M)], [("fields, extra fields and set of given fields", "state of an object", BM)],
    ["attributes and serialized form after an assignment"])

P["C18"] = ("Factory references point at the named entry; equality and hash follow the text",
    "For every legal name, the reference made by each of the reference factories is the pointer to the entry of that name in the map the factory is for, resolves in a document to that very entry, and is accepted by the reference validator where an object of that kind may be referenced. References are equal exactly when their texts are equal, equal references have equal hashes, and they are unequal to everything that is not a reference. References made by factories for different maps are never equal.",
    [I], "every factory, every legal name or pair of names, any other entries in the document",
    "Tests make one reference per factory with a fixed name; the claim is about every name and about pairs.",
    [M + "base.py"], [("factories", M + "base.py: Reference.to_*"), ("equality and hash", M + "base.py: Reference.__eq__, __hash__")], [], ["text of the reference", "resolution", "membership in sets and mappings"])

P["C19"] = ("Field and document names are interchangeable; absent, null and defaults agree",
    "Giving a field by its Python field name or by its document name, as keyword or in a mapping, as data or as finished object, alone or mixed, gives the same verdict and equal objects, at every depth of a document. An absent optional field has its documented default, an optional field given as null is equal to an absent one where the default is null, and attributes read back what was assigned and are written under the document name.",
    [I, CF], "every field of every kind of object, every way to give it, whole documents",
    "Tests use one spelling per field; the claim covers every field, mixtures of spellings and defaults of all kinds.",
    [M, M + "bindings/"], [("field aliases and defaults", M)], [], ["result of parsing or constructing", "attributes", "serialized object"])

P["C20"] = ("Extra processors run in order on the finished document and can refuse it",
    "A document's extra converters each run once in the given order, and after them its extra validators each run once in the given order, on the complete document, valid in itself, with what earlier converters did visible and kept; processors may assign fields of the document. If a processor raises, those after it do not run and the document is refused, or the assignment that triggered them is undone. This holds however the document is made, processors run again on assignments to the document, only classes of callables are accepted as processors, and processors are never written out.",
    [HI, CF, I], "0 to 3 converters and validators, any of them refusing, every way to make the document, sequences of assignments, processors given and taken away later",
    "Tests use one converter or validator; the claim is about orders, positions of the refusal and repeated runs.",
    [M + "asyncapi.py", "asyncapi3/protocols.py"], [("running the processors", M + "asyncapi.py: AsyncAPI3.run_extra_processors")], [("processors of the document", "lists of classes", M + "asyncapi.py")], ["order of calls", "result of making the document", "serialized document"])

P["C21"] = ("The builder makes a complete, empty, checked and independent document",
    "The builder puts title, version, description, terms of service, contact, license, tags and external docs into the information object exactly as given, with the documented defaults otherwise, makes every collection of the document and of its components present and empty, and lets every other document field or extension given replace its own value. It refuses exactly what constructing the same document with the reference validator refuses, and its documents keep checking references on later assignments unless other validators are given. Documents built one after another share nothing.",
    [I, HI], "every combination of absent, null and given arguments, every other field by either name, as data or object, extensions, changes to earlier documents",
    "Tests build with single arguments; the claim covers their combinations, replacement of each field and independence after arbitrary changes.",
    [M + "asyncapi.py"], [("builder", M + "asyncapi.py: AsyncAPI3.as_builder")], [], ["built document", "serialized document"])

P["C22"] = ("Parsing, checking and writing leave no trace and remember nothing",
    "Parsing, accepted or refused, leaves its input unchanged; writing leaves the object unchanged; parsing the same input again gives an equal object. Objects made from the same input or by default share no mutable part: changing one changes neither the other, nor the input, nor objects made later. The verdict of the reference validators and the result of resolving a reference depend only on the document at that moment, not on documents, references or states seen before, with the same or another validator object.",
    [HI, I], "every kind of object, each field changed; sequences of documents, resolutions and changes; names",
    "Tests look at one object or one document at a time; the claim is about pairs and histories.",
    [M, V + "utils.py", V + "unified_references_validator.py", V + "tags_ref_validator.py", V + "external_docs_ref_validator.py"],
    [("defaults made per object", M), ("state kept per call", V)], [("state of validators", "names and references collected during a call", V)], ["input after parsing", "other objects after a change", "verdicts in sequence"])

P["C23"] = ("An object of only '$ref' is a reference where one may stand, and nowhere else",
    "Wherever the specification lets a reference stand, an object whose only field is '$ref' with a text is read as a reference with exactly that text and written as exactly that object; the same holds for reference objects put there. Except where schema objects (or a free-form Kafka key) may stand, a '$ref' that is not a text, or any other field beside '$ref', extensions included, is refused. Where no reference may stand, neither such an object nor a reference object is accepted in place of an object, list or named map.",
    [I], "every position a reference can stand at (several hundred) and every place an object, list or map stands; every text, every other field name",
    "Tests parse references at some positions with fixed texts.",
    [M + "base.py", M, M + "bindings/"], [("unions with references", M), ("reference object", M + "base.py: Reference")], [], ["type and text of the parsed object", "serialized document"])

P["C24"] = ("Objects are checked again whenever they are put into another object",
    "An object of the library that was changed behind its own checks (built without validation, attributes or list elements or map entries changed directly, fields removed, unknown fields added) is accepted into another object, list, map or document if and only if the data it stands for would be, and becomes what that data becomes. This holds when parsing, constructing, assigning an attribute or a map item, and when a document holding it at any depth is validated again.",
    [HI, I], "every kind of object, each field set to a value of its type or of others or removed, every kind of holder, any depth",
    "Tests embed valid objects, and a few invalid ones in single places.",
    [BM, M + "schema.py", M + "bindings/kafka.py"], [("revalidation of instances", BM + ": revalidate_instances"), ("map item assignment", BM + ": PatternedRootModel.__setitem__")], [], ["result of embedding", "serialized holder"])

P["C25"] = ("Enumerated fields accept exactly their documented values",
    "Every field with an enumerated set of values (operation actions, security scheme types and locations, HTTP methods, quality-of-service levels, destination types, policies, encodings and so on, single or in lists) accepts each documented value and refuses every other text, in particular other case, surrounding space or line ends, every other number and every other kind of value. It accepts null only if it is optional, keeps the value, and writes it unchanged, whether parsed, constructed, assigned or inside another object.",
    [I], "every enumerated field, every text up to one character longer than the longest value, every integer, each value with insertions or replacements",
    "Tests try each value or one wrong value on some fields.",
    [M + "operation.py", M + "security.py", M + "bindings/"], [("literal types", M + "bindings/")], [], ["result of parsing, constructing or assigning", "serialized object"])

P["C26"] = ("Wrong types, missing required fields and misplaced nulls are refused everywhere",
    "A value that is not of a field's type is refused: non-texts for texts, texts and collections for numbers and booleans, scalars and maps for lists, scalars and lists for objects and maps, objects of another kind for objects, and lists or maps with such an element anywhere (digits as text for numbers, 0 and 1 for booleans, and booleans for numbers are left open). A required field must be given under its own name and not be null, and null is refused for every field that is not optional. This holds when parsing, constructing, assigning and inside other objects.",
    [I], "every field of every kind of object, values of a dozen other types, every integer, every position of a wrong element, names similar to the missing one",
    "Tests omit some required fields and pass some wrong types; the claim is for every field and every way in.",
    [M, M + "bindings/"], [("field types", M)], [], ["result of parsing, constructing or assigning"])

P["C27"] = ("External references are reported by warnings; validator hooks decide",
    "Each shipped reference validator reports every external reference it looks at by a logged warning that quotes it, logs no warning when there is none, and never refuses a document for it. A subclass of the tag or external documentation validator that overrides the documented handling of external or of internal references is asked about every reference of that kind, with the document, the reference and a context, and only its answer decides about it; references of the other kind are handled as before.",
    [I, CF], "every covered position, every text of the reference (external ones and internal ones), overrides of either or both kinds that accept, refuse or defer, called or given as extra validators",
    "Tests look for a warning at one or two places and never subclass a validator.",
    [V + "tags_ref_validator.py", V + "external_docs_ref_validator.py", V + "unified_references_validator.py", V + "utils.py"],
    [("dispatch on external and internal references", V + "tags_ref_validator.py: validate_tag_ref; " + V + "external_docs_ref_validator.py: validate_external_doc_ref"), ("warning on external references", V + "utils.py: resolve_reference")], [],
    ["log records of warning level", "calls of the overridden methods", "validator verdict"])

P["C28"] = ("Objects rebuilt from their data or parts, or copied, are the same objects",
    "An object of the library equals, and is written out like, what one gets from it by parsing its Python data (as written by default, without unset or without default fields), by building its kind from its parts, by validating the object itself and by copying it. A deep copy shares no changeable part with the original. A copied or validated document keeps its processors, which run for it on every validation as for the original, also if a processor made the copy.",
    [I, HI], "every kind of object, each field absent, null or given with any value, complete objects, nested content; documents with processors", "Tests write objects out and compare with the expected data, seldom read that back, and never copy a document.",
    [BM, M + "asyncapi.py"], [("revalidation of instances", BM + ": revalidate_instances"), ("guard of the processors", M + "asyncapi.py: AsyncAPI3.run_extra_processors")], [("object state", "fields, unknown fields, fields set", "pydantic's instance state")],
    ["equality", "serialized object", "identity of parts", "calls of processors"])

P["C29"] = ("The published JSON Schema agrees with what is read and written",
    "The JSON Schema that a kind of object publishes, for reading or for writing, accepts every object the parser accepts (other ways to write numbers and truth values aside) and every object the library writes. It refuses what the parser refuses for a missing required field, an unknown field of a closed kind, a value of a wrong JSON type or a value outside an enumeration. It has exactly the documented fields under their document names, processors are not among them, and e-mail and URL fields are marked as such.",
    [I], "every kind of object; each field missing, null or of any kind of value; every enumeration; unknown fields; complete and nested objects; both modes", "Tests check that a schema is generated at all and that processors are not in it.",
    [M + "asyncapi.py", HM, BM], [("JSON Schema of e-mail addresses", HM + ": EmailStr.__get_pydantic_json_schema__"), ("fields left out of the schema", M + "asyncapi.py: SkipJsonSchema")], [], ["published JSON Schema", "result of parsing", "serialized object"])

P["U01"] = ("URL fields accept exactly absolute URLs and keep them",
    "Fields holding URLs (external documentation, contact, license, terms of service, OAuth and OpenID Connect endpoints) accept exactly syntactically valid absolute URLs, http or https where required, and write back an equivalent URL.",
    [I], "every text", "Tests use a few URLs.", [M + "info.py", M + "security.py", M + "base.py"], [("URL types of pydantic", M + "info.py")], [], ["result of parsing", "serialized document"])
P["U02"] = ("Reading and writing JSON text is faithful",
    "Parsing a document from JSON text gives the same document as parsing the data the text denotes, and writing it as JSON text denotes the same data as the JSON-ready dump.",
    [I], "every JSON text", "Tests parse the example files.", [M + "asyncapi.py"], [("pydantic's JSON reader and writer", M + "base_models.py")], [], ["result of parsing JSON text", "JSON text written"])
