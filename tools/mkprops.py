import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
def m(name,where): return dict(name=name,where=where)

p("C01","Counters never lose, invent or undo increments",
 "Incrementing a counter by a non-negative amount adds exactly that amount (1 by default) in one indivisible step, a negative amount changes nothing, and Reset sets it to 0; no other operation changes it, so without Reset its value never decreases. Concurrent increments from any number of threads are all counted exactly once. Reading (Value, Collect) reports the current value and changes nothing.",
 ["inputs","schedules"],"every starting value and amount (all doubles, including -0.0, infinities and NaN amounts where stated) and every interleaving of other threads' atomic updates between any two atomic steps",
 "the unit tests run a handful of single-threaded increments; a lost update needs an interleaving between load and store",
 ["core/src/counter.cc","core/src/gauge.cc","core/include/prometheus/counter.h"],
 [m("sign check before delegating to the gauge","core/src/counter.cc Counter::Increment"),m("compare-exchange retry loop","core/src/gauge.cc Gauge::Change")],
 observe=["Counter::Value","Counter::Collect"])
p("C02","Gauges apply every update atomically and exactly",
 "Each gauge update is one indivisible step: incrementing adds the amount, decrementing subtracts it (1 by default), setting stores it, and setting to the current time stores the wall-clock seconds. Updates racing from several threads are never lost or torn. Reading reports the current value and changes nothing.",
 ["inputs","schedules"],"every double value and amount; every interleaving with other threads' atomic updates",
 "tests use a few values single-threaded",
 ["core/src/gauge.cc","core/include/prometheus/gauge.h"],
 [m("atomic<double> with compare-exchange loop","core/src/gauge.cc Gauge::Change")],observe=["Gauge::Value","Gauge::Collect"])
p("C03","Histogram buckets count observations cumulatively and exactly",
 "After any sequence of observations a collected histogram lists its configured boundaries in order followed by exactly one +Inf bucket, and each bucket's cumulative count equals the number of observations less than or equal to its boundary (a NaN observation counts only in +Inf). Cumulative counts never decrease along the list, the last one equals the reported sample count, and the reported sum is the sum of the observed values. Collecting or observing changes no other bucket; Reset returns every bucket and the sum to zero.",
 ["inputs","histories"],"every strictly increasing boundary list (without an explicit +Inf), every observed double, every history of observations; counts below 2^53",
 "tests use two boundaries and at most seven values; boundary equality, long lists, NaN and arbitrary histories are not sampled",
 ["core/src/histogram.cc","core/include/prometheus/histogram.h"],
 [m("binary search for the first boundary >= value","core/src/histogram.cc Histogram::Observe"),m("running cumulative sum","core/src/histogram.cc Histogram::Collect")],
 observe=["Histogram::Collect"])
p("C04","Histograms reject malformed boundaries and bulk updates without effect",
 "Constructing a histogram succeeds if and only if its boundaries are strictly increasing. A bulk observation succeeds if and only if it supplies exactly one increment per bucket (including +Inf); then each bucket grows by its own increment and the sum by the given sum. A rejected bulk observation throws and changes nothing.",
 ["inputs"],"every boundary list and every increment list of any length",
 "tests try two bad lists and one wrong length",
 ["core/src/histogram.cc"],[m("is_strict_sorted check","core/src/histogram.cc constructors"),m("size check before any update","core/src/histogram.cc Histogram::ObserveMultiple")],observe=["Histogram::Histogram","Histogram::ObserveMultiple","Histogram::Collect"])
p("C05","Summaries report exact count, sum and the configured quantiles",
 "A collected summary reports exactly how many observations were made in its whole lifetime and their running sum, regardless of the sliding window. It lists one entry per configured quantile, in configuration order, labelled with the configured rank. Collecting changes neither.",
 ["inputs","histories"],"every list of configured quantiles, every observed value, every history of Observe/Collect and every passage of time",
 "tests check at most three observations and three quantiles",
 ["core/src/summary.cc","core/include/prometheus/summary.h"],[m("count_/sum_ update under the lock","core/src/summary.cc Summary::Observe"),m("loop over configured quantiles","core/src/summary.cc Summary::Collect")],observe=["Summary::Collect"])
p("C06","A quantile estimate is always one of the observed values",
 "A streaming quantile estimate is NaN when no observation is in the window and otherwise equals one of the values observed since the estimator was last emptied. The estimator's sample stays sorted and accounts for every observation exactly once, whatever the insertion order, duplicates or number of observations. Inserting, querying or emptying never reads or writes outside its buffers.",
 ["inputs","histories"],"every sequence of non-NaN values, inserts, queries and resets of any length, every quantile/error configuration",
 "the tests feed one increasing sequence; batch boundaries, duplicates, ties at insertion points and compression are reached only for that order",
 ["core/src/detail/ckms_quantiles.cc","core/include/prometheus/detail/ckms_quantiles.h"],
 [m("sorted batch merge","core/src/detail/ckms_quantiles.cc insertBatch"),m("compress merges weights","core/src/detail/ckms_quantiles.cc compress")],observe=["Summary::Collect"])
p("C07","Summary quantiles cover exactly the sliding time window",
 "Quantiles never reflect an observation older than the configured maximum age, and always reflect every observation younger than maximum age minus one age-bucket interval, however irregular the times of observations and collections are. Every observation is recorded in every age bucket. When time passes, exactly the age buckets that fell due are emptied, in cyclic order.",
 ["histories","inputs"],"every number of age buckets, every positive rotation interval, every sequence of monotonic clock readings",
 "one test sleeps 1.2 s once with two buckets; long gaps, wrap-around and many buckets are not reached",
 ["core/src/detail/time_window_quantiles.cc"],[m("rotation loop","core/src/detail/time_window_quantiles.cc rotate")],observe=["Summary::Collect"])
p("C08","Metric and label names are accepted exactly by the documented grammar",
 "A metric name is accepted if and only if it is non-empty, consists only of ASCII letters, digits, underscores and colons, does not start with a digit and does not start with two underscores; a label name likewise but without colons. In addition the label name le is rejected for histograms and quantile for summaries. The result depends on nothing but the name (and metric type), in particular not on the locale.",
 ["inputs"],"every byte string of any length, including embedded NUL and bytes >= 0x80, and every metric type",
 "tests sample a dozen names",
 ["core/src/check_names.cc"],[m("character class scan","core/src/check_names.cc CheckMetricName, CheckLabelName")],observe=["CheckMetricName","CheckLabelName","Family constructor"])
p("C09","Families map each label set to exactly one metric, rejecting bad labels",
 "Adding a label set that already exists returns the same metric object and changes nothing; adding a new one creates exactly one new metric and leaves all others untouched. Adding a set with an invalid or reserved label name, or a name already used as a constant label, throws and leaves the family unchanged; so does constructing a family with an invalid metric or constant label name. Removing a metric removes exactly that one (nothing if unknown), and Has reports exactly the present sets.",
 ["inputs","histories"],"every label set, every family content, every history of Add/Remove/Has",
 "tests use families of at most two metrics",
 ["core/src/family.cc","core/include/prometheus/family.h","core/src/detail/utils.cc","core/src/detail/hash.h"],
 [m("insert-then-check with rollback","core/src/family.cc Family::Add"),m("label hash depends only on the labels","core/src/detail/utils.cc LabelHasher")],observe=["Family::Add","Family::Has","Family::Remove","Family::Collect"])
p("C10","A scrape reports every registered dimension exactly once with its own data",
 "Collecting a non-empty family yields one family record with its name, help text and type and exactly one sample per present label set; each sample carries the constant labels followed by its own labels and the current value of its own metric. An empty family yields nothing. Collecting a registry yields the concatenation of the collections of all its families, each exactly once, and changes nothing.",
 ["inputs","histories"],"every number of families, metrics and labels of all five metric types",
 "tests collect one family with one or two metrics",
 ["core/src/family.cc","core/src/registry.cc","core/src/info.cc"],[m("per-metric copy loop","core/src/family.cc Family::Collect/CollectMetric"),m("CollectAll over the five family lists","core/src/registry.cc Registry::Collect")],observe=["Family::Collect","Registry::Collect"])
p("C11","Registries keep family names unique across all metric types",
 "Registering a name already used by another metric type throws; registering a name already used by the same type either returns the existing family (merge mode with equal constant labels) or throws, and otherwise exactly one new family with the requested name, help and labels is added. A rejected registration leaves the registry unchanged. Hence no two families in a registry ever share a name.",
 ["inputs","histories"],"every registry content, name, help, labels, insert mode and metric type",
 "tests try one pre-existing family per case",
 ["core/src/registry.cc","core/src/detail/builder.cc"],[m("name lookups before insertion","core/src/registry.cc Registry::Add, NameExistsInOtherType"),m("builder forwards name, help, labels","core/src/detail/builder.cc")],observe=["BuildCounter().Register(...) etc.","Registry::Collect"])
p("C12","Removing a family removes exactly that family",
 "Removing a family from a registry returns true exactly when that family object belongs to it; then that family and no other disappears and the order of the rest is kept. Otherwise it returns false and nothing changes. After removal the name can be registered again.",
 ["inputs","histories"],"every registry content and every family object of every metric type",
 "tests remove one family from a registry of one",
 ["core/src/registry.cc"],[m("search by identity and erase","core/src/registry.cc Registry::Remove")],observe=["Registry::Remove","Registry::Collect"])
p("C13","Label values and help texts can never break the exposition format",
 "In the text output every label value is written so that un-escaping it gives back exactly the original string, and neither a label value nor a help text, whatever bytes it contains, can end a quoted value early or start a new line. Distinct label values are always written differently.",
 ["inputs"],"every byte string as label value or help text",
 "tests escape one backslash, newline and quote in label values; help texts are never tried",
 ["core/src/text_serializer.cc"],[m("escaping writer","core/src/text_serializer.cc WriteValue")],observe=["TextSerializer::Serialize"])
p("C14","The text output contains exactly the collected data, for every metric type",
 "Serialising a list of families writes, for each in order, its HELP line (if the help text is not empty), its TYPE line and, for each metric in order, exactly the sample lines its type calls for, each with the metric's labels, value and (if set) timestamp; histograms always end with exactly one le=+Inf bucket. Numbers are always written in the C locale with at least 16 significant digits, infinities as +Inf/-Inf, whatever locale or precision the stream had. The stream's locale and precision are restored afterwards.",
 ["inputs","configurations"],"every list of families of any size and content; every initial stream locale and precision",
 "tests look for substrings in the output of one metric with at most one label",
 ["core/src/text_serializer.cc","core/src/serializer.cc"],[m("per-type writers","core/src/text_serializer.cc"),m("imbue/precision save and restore","core/src/text_serializer.cc TextSerializer::Serialize")],observe=["TextSerializer::Serialize"])
p("C15","Base64 coding follows RFC 4648 and decoding inverts encoding",
 "Encoding any byte string gives its RFC 4648 base64 text (or the URL-safe alphabet variant). Decoding accepts a text if and only if its length is a multiple of four and it consists of base64 characters with at most two padding characters, only at the very end, and then returns the encoded bytes, so decoding an encoding gives back the original. Decoding anything else throws, and no input makes it read outside the text.",
 ["inputs"],"every byte string of any length",
 "tests use seventeen short vectors and three malformed texts",
 ["util/include/prometheus/detail/base64.h"],[m("bit regrouping loops","util/include/prometheus/detail/base64.h")],observe=["base64_encode","base64url_encode","base64_decode"])
p("C16","Push URLs encode grouping labels injectively and safely",
 "Every label in a push URL is written as one name segment and one value segment from which the Pushgateway's decoding rule recovers exactly the original value; no label value can add, drop or alter a path segment. The empty value and values containing characters outside the RFC 3986 unreserved set are always base64url encoded. The URL consists of the base URL, the metrics path, the job and then the labels in order.",
 ["inputs"],"every label value byte string, including empty, '.', '..' and bytes >= 0x80; every label list",
 "tests encode four values",
 ["push/src/detail/label_encoder.cc","push/src/gateway.cc"],[m("needsEncoding test","push/src/detail/label_encoder.cc encodeLabel"),m("URI assembly","push/src/gateway.cc Gateway constructor, getUri")],observe=["request URL sent by Gateway"])
p("C17","Basic authentication admits only requests the callback approved",
 "A request is admitted if and only if it has an Authorization header consisting of 'Basic ' and valid base64 of user:password and the application's callback, called exactly once with exactly the user name before the first colon and the password after it, returns true. In every other case it is refused and exactly one complete 401 response carrying the realm is sent, and the callback is not consulted when the header is missing or malformed.",
 ["inputs"],"every header value and every callback behaviour",
 "integration tests try five headers",
 ["pull/src/basic_auth.cc"],[m("header parsing and callback","pull/src/basic_auth.cc AuthorizeInner")],observe=["BasicAuthHandler::authorize"])
p("C18","A scrape response is complete, framed correctly and compressed only on request",
 "Answering a scrape sends exactly one 200 response whose body is the text serialisation of the concatenated collections of all registered collectables that are still alive, in registration order. The declared Content-Length equals the number of body bytes sent, and the body is gzip-encoded only if the request's Accept-Encoding header mentions gzip. The endpoint's own transferred-bytes and scrape counters then grow by exactly the body size and one.",
 ["inputs","histories"],"every list of registered collectables, alive or expired, every body, every Accept-Encoding header and every compression outcome",
 "integration tests scrape one or two registries",
 ["pull/src/handler.cc","pull/src/metrics_collector.cc"],[m("collect, serialise, write","pull/src/handler.cc handleGet, WriteResponse"),m("skip expired","pull/src/metrics_collector.cc CollectMetrics")],observe=["HTTP response"])
p("C19","Registering and removing collectables affects exactly the one named",
 "Registering a collectable at a URI appends it to that URI's list, dropping at most expired entries; removing one removes all its entries there and no other live collectable. Different URIs never affect each other, and each URI has exactly one endpoint for the exposer's lifetime, created on first use. Replacing a URI's authentication installs the new handler before the old one is destroyed.",
 ["inputs","histories"],"every list of registered collectables and endpoints and every URI",
 "integration tests use at most two URIs and two collectables",
 ["pull/src/handler.cc","pull/src/endpoint.cc","pull/src/exposer.cc"],[m("remove-erase of matching or expired entries","pull/src/handler.cc"),m("endpoint lookup by URI","pull/src/exposer.cc GetEndpointForUri")],observe=["Exposer::RegisterCollectable","Exposer::RemoveCollectable","HTTP response"])
p("C20","A push sends every live collectable once and reports failure truthfully",
 "A push sends, for each registered collectable still alive and in registration order, one request with the method of the call, its own URL and exactly its serialised metrics, and returns 200 only if every request succeeded (status 100 to 399). A synchronous push stops at the first failure and returns that status; an asynchronous push sends all and returns the status of a failed request if any failed. Delete calls send one DELETE to the job URL, or to the job URL with the instance labels, and return its status.",
 ["inputs","fault_sequences","histories"],"every list of collectables, alive or expired, and every sequence of response codes and transport errors",
 "no test exercises pushing (it needs a server)",
 ["push/src/gateway.cc"],[m("push loop and status reduction","push/src/gateway.cc push, async_push")],observe=["HTTP requests sent","returned status"])
p("C21","Each HTTP request is built afresh with exactly its own method, URL and body",
 "Every request starts from a reset transfer handle and carries exactly its own URL, the configured headers and exactly its own body bytes, with POST, PUT or DELETE as asked, so nothing of an earlier request leaks into it. It returns the response code, or a negative number if the transfer failed. Requests sharing a connection never overlap, and adding a header that fails leaves the headers unchanged.",
 ["inputs","histories","fault_sequences"],"every method, URL and body (empty or not, any bytes), every transport result",
 "no test exercises the HTTP layer of the push client",
 ["push/src/detail/curl_wrapper.cc"],[m("option sequence on the easy handle","push/src/detail/curl_wrapper.cc performHttpRequest")],observe=["HTTP requests sent","returned status"])
p("C22","Every class documented as thread-safe protects its shared state",
 "Every operation of registries, families, histograms, summaries, exposers, scrape handlers and push gateways accesses the object's mutable state only while holding that object's lock, in a single critical section per operation, and releases the lock on every path including exceptions. No operation acquires a lock it already holds. Data set at construction is never modified afterwards.",
 ["schedules","fault_sequences"],"every interleaving of concurrent calls on one object; every exception raised by a collectable or a contained constructor",
 "no test runs two threads on one object",
 ["core/src/registry.cc","core/src/family.cc","core/src/histogram.cc","core/src/summary.cc","pull/src/handler.cc","pull/src/exposer.cc","push/src/gateway.cc","push/src/detail/curl_wrapper.cc"],
 [m("lock_guard at the start of every public operation","all listed files")],observe=["absence of data races and deadlocks under concurrent use"])
p("C23","Quantile estimates stay within the configured rank error",
 "For every configured quantile and error, the reported estimate's rank among the observations in the window differs from the target rank by at most the configured error times the number of observations.",
 ["inputs","histories"],"every sequence of observations and every quantile/error configuration",
 "tests check one increasing sequence of 100000 integers",
 ["core/src/detail/ckms_quantiles.cc"],[m("allowableError bound in insert and compress","core/src/detail/ckms_quantiles.cc")],observe=["Summary::Collect"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
