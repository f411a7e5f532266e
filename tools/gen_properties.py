import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=m,where=files[0] if len(files)==1 else '; '.join(files)) for m in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=x,where=files[-1]) for x in state]
    P.append(d)
LX='crates/lexer/src/lexer.rs'; LG='crates/utility/src/language.rs'; TR='crates/localiser/src/tree.rs'
FM='crates/localiser/src/formatter.rs'; CM='crates/localiser/src/command.rs'; LO='crates/localiser/src/localiser.rs'
PR='crates/provider/sqlite3/src/provider.rs'; SC='crates/utility/src/script.rs'; TS='crates/utility/src/tagged_string.rs'
p('L01','Tokens partition the text exactly',
 'For every non-empty text and non-empty grammar, the tokens obtained one after another are non-empty, follow each other without gap or overlap, and their strings concatenated are exactly the text; after the last token no more tokens are returned. Every token reports its byte and character positions and lengths exactly as they are in the text, its number of graphemes, and as grapheme position the sum of those of the tokens before it. An empty grammar or an empty text is rejected with the corresponding error and nothing else is rejected.',
 ['inputs'],'all texts and grammars, all sequences of token requests','The tests tokenise two fixed ASCII sentences; multi-byte characters, adjacent grammar characters, a single character text and the end of the text are separate cases of a hand written state machine.',
 [LX],['LexerIterator::try_new','LexerIterator::next','LexerIterator::token'],['tokens returned by the iterator'])
p('L02','Tokens are maximal runs of one character class',
 'Every character of a token has the class that the token reports: white space, identifier, grammar (a syntax character listed in the grammar) or plain syntax. A grammar token is always exactly one character, and two neighbouring tokens never have the same class unless it is the grammar class.',
 ['inputs'],'all texts and grammars','Tests use one grammar and a few sentences; classification interacts with the look-ahead state of the iterator at every class boundary.',
 [LX],['LexerIterator::token_type','LexerIterator::next'],['token type and string of the tokens'])
p('R01','Language tags are canonical, whatever was asked before',
 'Asking the registry for a tag returns the canonical form of that tag as defined by ICU, or an error exactly when ICU rejects the text; the answer depends only on the requested text and never on which tags were requested before. A rejected text leaves the registry unchanged.',
 ['histories','inputs'],'all sequences of tag requests','Tests make one request on a new registry; the cached branches only matter after particular histories.',
 [LG],['LanguageTagRegistry::tag'],['returned tag or error'],['tags','deprecated'])
p('R02','One shared tag instance, listings in step with requests',
 'Within a registry all requests that canonicalise to the same tag return the same shared instance. The tag listing contains each canonical tag that was successfully requested exactly once, the deprecated listing has one entry for each distinct requested spelling that differs from its canonical form, and the combined listing is those two together. The ICU language object returned for a tag always equals the tag.',
 ['histories'],'all sequences of tag requests and ICU language requests','Needs particular orders of canonical and non-canonical spellings.',
 [LG],['LanguageTagRegistry::tag','LanguageTagRegistry::icu_language','LanguageTagRegistry::list','LanguageTagRegistry::list_all'],['pointer equality of tags, listings'],['tags','deprecated','icu'])
p('T01','Any pattern string is handled without panicking',
 'Whatever text a data repository returns as a pattern string, formatting it terminates and gives either a string or an error; it never panics (enough stack for the nesting of its named strings assumed).',
 ['inputs'],'all pattern strings, all placeholder values','A hand written state machine with unwraps and indexing in each of its nine states; tests visit a few well-formed patterns.',
 [TR,FM],['Tree::try_new','Formatter::try_new','Formatter::format_pattern'],['result of Localiser::format'])
p('T02','Exactly the documented pattern grammar is accepted',
 'A pattern string is accepted only if it is a text with well formed patterns, optionally followed by a single group of named strings: every brace is matched, placeholders of different patterns are different, named strings have different identifiers, options and selectors are name#value pairs, and two number signs of a named string are not adjacent. Any other pattern string is rejected with an error, and every pattern string of that form passes the parser.',
 ['inputs'],'all pattern strings','The space of token sequences is unbounded; tests cover a dozen patterns.',
 [TR],['Tree::try_new','Tree::pattern_start'],['acceptance or error of Localiser::format'])
p('T03','Plain and literal text appears unchanged in the result',
 'Text outside patterns is copied to the result unchanged, a backtick makes the token that follows it literal, and the text between the backticks of a literal pattern is copied unchanged with a doubled backtick standing for one backtick. No character is lost, duplicated or moved, and the same holds for literal command parameters and named strings.',
 ['inputs'],'all pattern strings','Escapes interact with every other construct and with both string contexts.',
 [TR,FM],['Tree::try_new','Tree::add_token','part_text'],['formatted string'])
p('F01','Invalid patterns are rejected before any formatting',
 'A pattern with an unknown keyword, an unknown option or option value, a plural or ordinal selector that is not a plural category, a plural or ordinal pattern without the other selector, or any selector that refers to a named string that does not exist (or, within a named string, that does not come earlier) is rejected with an error whatever the placeholder values are. Every other parsed pattern without the calendar option is accepted (named strings must also have identifiers other than `_`, and commands that are not delayed must succeed).',
 ['inputs'],'all pattern strings and languages','Combinations of keywords, options and named strings; tests contain only valid ones.',
 [FM],['Formatter::try_new','part_pattern','pattern_selectors','sign_display','decimal_grouping_display','date_length','time_length'],['error of Localiser::format'])
p('F02','The result is the pattern with every placeholder substituted',
 'The formatted string is the concatenation, in order, of the parts of the main string: text, string values, decimal and date-time values formatted by ICU for the language of the string with the options of the pattern, and for plural, ordinal and select the named string chosen by the plural category of the number or by the value itself, or the one of the other selector when there is none for it. A number sign within the chosen named string is the number formatted for the language. The returned tag is the language tag of the pattern string.',
 ['inputs'],'all accepted patterns, values and languages','Formatting is recursive over patterns that data authors write; tests format a few.',
 [FM],['Formatter::format','Formatter::format_pattern','Formatter::find_number_sign','Formatter::select'],['formatted string and tag'])
p('F03','A missing or wrongly typed value is an error',
 'Formatting fails with an error whenever a placeholder that is reached has no value or a value of a type that its pattern does not accept: text for string and select patterns, any number for decimal and plural, unsigned integers only for ordinal, and dates, times or ISO text for date-time. It never substitutes a default or returns partial text, and values that no placeholder uses have no influence.',
 ['inputs'],'all accepted patterns and all maps of values','The combinations of pattern kinds and value types.',
 [FM],['Formatter::format_pattern'],['error of Localiser::format'])
p('F04','Formatting does not depend on earlier formatting',
 'Formatting the same string with the same values gives the same result no matter which other values it was formatted with before, including formatting that failed half way.',
 ['histories'],'all sequences of formatting requests on one cached string','Number signs are stored between calls in a cached formatter; needs two calls with different branches.',
 [FM,LO],['Formatter::format','Formatter::update_number_part'],['formatted string'],['numbers'])
p('D01','ISO dates are decomposed exactly',
 'For every valid date the documented ISO forms (YYYY, YYYYMMDD, YYYY-MM, YYYY-MM-DD, -YYYY-MM-DD, +YYYYY, +YYYYY-MM, +YYYYY-MM-DD) give exactly that year, month and day, with missing month or day taken as 1. Texts of such a form with an impossible month or day or with a field that is not a number are rejected with an error; no text causes a panic.',
 ['inputs'],'all texts','Slicing and splitting with many forms; tests use one date.',
 [FM],['decompose_iso_date'],['date formatted by a date_time pattern'])
p('D02','ISO times are decomposed exactly',
 'For every valid time the documented ISO forms (hh, hhmm, hh:mm, hhmmss, hh:mm:ss, and the latter two followed by a full stop and nanoseconds), each with an optional leading T and an optional trailing Z or offset, give exactly that hour, minute, second and nanosecond, missing fields being zero. Texts of such a form with a field out of range or not a number are rejected with an error; no text causes a panic.',
 ['inputs'],'all texts','Optional separators, fields and suffixes multiply; tests use one time.',
 [FM],['decompose_iso_time'],['time formatted by a date_time pattern'])
p('C01','Commands are never replaced and are found by name',
 'Registering a command under a name that is already registered fails and leaves the registered command in place; otherwise the command is registered and all others stay as they were. Looking up a name returns exactly the function registered under that name or a not-found error, and the listing has exactly the registered names.',
 ['histories'],'all sequences of registrations, look-ups and listings','Needs histories with repeated names.',
 [CM],['CommandRegistry::insert','CommandRegistry::command','CommandRegistry::list'],['results of registry methods'],['registry'])
p('C02','Bundled commands handle every parameter list',
 'The bundled commands never panic: a missing or non-text parameter gives the corresponding error with the index of the parameter, the file path command returns the path text, and the English article command returns "an" exactly for texts that start with a lower case vowel and "a" for any other text.',
 ['inputs'],'all lists of placeholder values','Parameter lists come from pattern authors and callers.',
 [CM],['file_path','english_a_or_an'],['result of the command function'])
p('C03','Command patterns call the command with the right parameters',
 'A command pattern is replaced by what the registered command returns for the command name followed by its parameters in order. With the delay marker the command is called for each formatting and a parameter that is the name of a supplied value is replaced by that value; without the marker the parameters are the literal texts and values never influence the result. An unregistered command or a failing command is an error.',
 ['inputs','histories'],'all command patterns, parameters and values','Order, literals and substitution for any number of parameters.',
 [FM,TR],['part_command','Formatter::format_pattern'],['formatted string; parameters received by a command'])
p('K01','Caching never changes results',
 'For a repository that does not change, every formatting and literal request gives the same string, tag or error with caching as without it, whatever requests (other languages, components, identifiers, values, literal or formatted, with or without fallback) were made before.',
 ['histories'],'all sequences of requests on one localiser','A cache key that misses one aspect of the request only shows after a particular earlier request.',
 [LO],['Localiser::actual_format','Localiser::actual_literal','Localiser::add_string_to_cache'],['results of Localiser::format and Localiser::literal'],['cache'])
p('K02','The default language is used only as fallback',
 'The string that the repository finds for the requested language is used when there is one. Otherwise, with fallback the string for the default language of the component is used and its tag returned, and without fallback, or when the default language has none either, the request fails with a string-not-found error that names the component, identifier, requested language and whether fallback was used. An error of the repository is passed on.',
 ['inputs','fault_sequences'],'all repositories, requests and repository failures','Needs repositories with missing strings and failing look-ups.',
 [LO],['Localiser::actual_format','Localiser::actual_literal'],['results of Localiser::format and Localiser::literal, calls made to the provider'])
p('K03','Defaults are exactly what was last set',
 'Requests that do not state a language, fallback or caching use the values given at creation or last set as defaults; setting some of the defaults leaves the others unchanged, and a stated option takes precedence for that request only. The reported default language is the one that was last set.',
 ['histories'],'all sequences of setting defaults and requests','Needs sequences that set some defaults and not others.',
 [LO],['Localiser::defaults','Localiser::default_language','Localiser::format_with_defaults','Localiser::literal_with_defaults','Localiser::format'],['results of the *_with_defaults methods'],['language_tag','fallback','caching'])
p('K04','Nested localisation data is formatted from the inside out',
 'Formatting localisation data that has no values gives its literal string; otherwise it is the formatting of its string with its values, where every value that is itself localisation data is first replaced by its own formatted string for the same language, fallback and caching. An error of any nested data is an error of the whole.',
 ['inputs'],'all nestings of localisation data','Nesting is unbounded.',
 [LO],['Localiser::actual_format_localisation_data','Localiser::format_localisation_data'],['result of Localiser::format_localisation_data'])
p('P01','Look-up prefers the tag, then its sub-tags, then its parents',
 'A string look-up returns a string of the requested component and identifier whose tag is the requested tag if there is one, otherwise one whose tag extends the requested tag by further subtags, otherwise the same for the requested tag without its last subtag, and so on; it returns nothing when none of these exist. The plural look-up returns all strings of the first of these tags that has any, and strings of another language that merely begins with the same letters are never returned.',
 ['inputs'],'all repositories, components, identifiers and tags','Depends on which tags exist in the repository; tests use the shipped data only.',
 [PR],['LocalisationProviderSqlite3::find_strings','query_pattern','LocalisationProviderSqlite3::string','LocalisationProviderSqlite3::strings'],['results of string() and strings()'])
p('P02','Exact look-up never returns another language',
 'The exact-match look-up returns a string only if its tag is exactly the requested tag, and returns it whenever the repository has one for the component and identifier.',
 ['inputs'],'all repositories, components, identifiers and tags','Needs repositories with parent or sub-tags only.',
 [PR],['LocalisationProviderSqlite3::find_strings','LocalisationProviderSqlite3::string_exact_match'],['result of string_exact_match()'])
p('P03','All-in-one file first, then the component file',
 'Every look-up searches the all-in-one file first if it has the component, and the file of the component only if the former gave nothing; components, identifiers and languages are never mixed up. A component that is in neither gives a component-not-found error, and a known component with no matching string gives no string rather than an error.',
 ['inputs'],'all combinations of repository files','Needs repositories with the component in either file, both or neither.',
 [PR],['LocalisationProviderSqlite3::connection','LocalisationProviderSqlite3::string','LocalisationProviderSqlite3::strings','LocalisationProviderSqlite3::string_exact_match'],['results of the look-up methods'],['components','connections'])
p('P04','Repository details agree with the data',
 'The details of a component list its languages with exactly the number of strings and the contributors that its files have for that language, its default language and the total number of strings; the details of the repository are the union and the sums over all components with the default language of the application component. Ratios are the count divided by the count of the default language, and the languages of an identifier are exactly those for which it has a string.',
 ['inputs'],'all valid repositories','Sums, unions and duplicates over several files; tests use the shipped data only.',
 [PR],['LocalisationProviderSqlite3::build_cache','LocalisationProviderSqlite3::identifier_details','LocalisationProviderSqlite3::component_details'],['results of the *_details() methods'],['component_details','repository_details'])
p('P05','Only directories with valid repository files are opened',
 'A provider is created exactly when the path is a directory that contains at least one repository file with a component and every repository file in it has the supported schema version with the required tables and columns; other files and sub-directories are ignored. Otherwise creation fails with the corresponding error, which names a table or column that is missing or not as required.',
 ['inputs'],'all directories and database schemas','Every table and column of the schema is a separate check.',
 [PR],['LocalisationProviderSqlite3::try_new','verify_schema','table_exists','columns_check'],['result of try_new()'])
p('S01','Writing directions and tagged strings are consistent',
 'For every script direction, the line direction and the grapheme direction are the two components of its direction pair, the pair determines the script direction, and one of them is vertical and the other horizontal. A tagged string always returns the text and the very tag it was created with.',
 ['inputs'],'all script directions, texts and tags','Only one tagged string is tested and no script direction.',
 [SC,TS],['ScriptDirection::directions','ScriptDirection::line','ScriptDirection::grapheme','TaggedString::new'],['returned directions, text and tag'])
p('S02','Script data is that of the script of the language',
 'The script data of a language tag is the data of the script that the tag names, or else of the likely script of the language according to ICU, and there is some whenever ICU knows the likely script. It has at least one direction and has right-to-left lines if ICU says the script is written from right to left, and not only such horizontal lines if ICU says it is written from left to right. The script data of a localiser is always that of its current default language.',
 ['inputs','histories'],'all language tags, all changes of the default language','A table of some 180 scripts and likely scripts of thousands of languages; no test asks for the script data.',
 [LO,'crates/localiser/src/script.rs'],['get_script_data','DataProvider::new','Localiser::script_data','Localiser::script_data_for_language_tag'],['results of Localiser::script_data and Localiser::script_data_for_language_tag'],['language_script_data'])
p('E01','Every error carries what its localised message needs',
 'The localisation data of every error names the type and the variant of the error, or is just the message for the errors about tables and columns of a schema; an error of these crates wrapped in it appears as its own localisation data and any other wrapped error as its text, and otherwise it has the message of the variant with every field of the error as a text under the name that the supplied string uses. Converting an error into an error that wraps it gives the variant of its kind. With the strings supplied by the crates the data of every error can be formatted in any language (with fallback), and the text then has the type, the variant and the fields.',
 ['inputs'],'all errors of all types, to any nesting','A dozen error types with some ninety variants, none of which is localised by a test; a wrong name only shows when that error occurs.',
 ['crates/localiser/src/error.rs','crates/provider/core/src/error.rs','crates/provider/sqlite3/src/error.rs','crates/utility/src/error.rs','crates/lexer/src/error.rs'],['LocaliserError::localisation_data','FormatterError::localisation_data','TreeError::localisation_data','CommandError::localisation_data','ProviderError::localisation_data','ProviderSqlite3Error::localisation_data','SchemaError::localisation_data','RegistryError::localisation_data','IcuError::localisation_data','LexerError::localisation_data'],['localisation data of an error, its text through Localiser::format_localisation_data'])
p('Y01','A shared localiser answers every thread as if it were alone',
 'With the feature `sync` a localiser can be sent to and shared between threads. Whatever the other threads request or change meanwhile, under every interleaving a formatting or literal request returns what a localiser used by one thread alone would return for the language and fallback given, where the default language and fallback are ones that the localiser had during the call. No request panics.',
 ['schedules','histories'],'all interleavings of requests and changes of defaults by any number of threads','No test uses threads; the cache is read and written under separate locks, so the failure needs another thread to act just between them.',
 [LO],['Localiser::actual_format','Localiser::actual_literal','Localiser::add_string_to_cache','Localiser::defaults'],['results of requests of concurrent threads'],['cache','language_tag','fallback'])
p('Y02','Registries shared between threads never replace what they gave out',
 'With the feature `sync` the language tag registry and the command registry can be sent to and shared between threads. Under every interleaving all requests for the same language tag return the same shared instance, and of several threads that register a command of the same name exactly one succeeds, whose command stays registered while the others get the error that it already exists. What was registered is found by every later request.',
 ['schedules','histories'],'all interleavings of requests and registrations by any number of threads','No test uses threads; looking up and inserting are separate steps unless the code makes them one.',
 [LG,CM],['LanguageTagRegistry::tag','CommandRegistry::insert','CommandRegistry::command'],['pointer equality of tags, results of registrations of concurrent threads'],['tags','commands'])
p('Y03','A shared SQLite3 repository answers every thread as if it were alone',
 'With the feature `sync` the provider of SQLite3 repositories can be sent to and shared between threads. Every look-up of strings and every repository and component detail gives each thread the result it gives to a single thread, whatever other threads ask meanwhile and whichever of them builds the details and query texts that are kept. No request panics.',
 ['schedules','histories'],'all interleavings of requests by any number of threads','No test uses threads; details and query texts are built once and kept, by whichever thread is first.',
 [PR],['LocalisationProviderSqlite3::string','LocalisationProviderSqlite3::strings','LocalisationProviderSqlite3::repository_details','LocalisationProviderSqlite3::component_details'],['results of concurrent threads'],['queries','details'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    assert x['statement'].count('. ')<=2,x['id']
print(len(P))
