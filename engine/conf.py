"""Which contract files decide which property, over which sources."""
PROPS = {
 'C08': dict(specs=[dict(file='C08.cc', sources=['core/src/check_names.cc'])],
   note='All names of any length: the real CheckMetricName and CheckLabelName are proved equal to the grammar. Trusted: the translation of LLVM IR to logic and its loop summaries (/verif/engine), z3, and the contracts of the C++ standard library in /verif/vstl. The same contracts are also run natively on sampled names (bounded, not counted as proof).'),
 'C15': dict(specs=[dict(file='C15.cc', sources=[])],
   note='All texts of any length: the real base64_encode, base64url_encode and base64_decode are compared with the RFC 4648 specification; loops by summaries, no bound. Trusted: the engine and its loop summaries, z3, the standard library contracts in /verif/vstl. Obligations the solver leaves open are listed in the evidence and covered by bounded execution.'),
 'C03': dict(specs=[dict(file='C03.cc', sources=['core/src/histogram.cc', 'core/src/gauge.cc', 'core/src/counter.cc'])],
   note='All histograms satisfying the class invariant (any number of strictly increasing boundaries, any counts below 2^53, any sum) and all observed values including NaN and infinities: Observe, Collect and Reset are proved against the specification, and the history statement follows from the proved induction step. The sum is stated with an uninterpreted addition in the code order. Trusted: the engine and its loop summaries, z3, the standard library contracts in /verif/vstl.'),
 'C04': dict(specs=[dict(file='C04.cc', sources=['core/src/histogram.cc', 'core/src/gauge.cc', 'core/src/counter.cc'])],
   note='All boundary vectors of any length including NaN, and all bulk observations by whole increments below 2^53. Trusted: the engine and its loop summaries, z3, the standard library contracts in /verif/vstl.'),
 'C17': dict(specs=[dict(file='C17.cc', sources=['pull/src/basic_auth.cc'])],
   note='All Authorization headers, realms (without NUL) and callback answers: the real BasicAuthHandler::AuthorizeInner and authorize are proved against the specification, base64_decode being represented by its contract (decided as C15). The literal text of the refusal is proved on one realm and compared softly for all. Trusted: civetweb hands out the request header and sends what mg_printf/mg_write are given (recording contract in specs/civet.h), the engine, z3, the standard library contracts in /verif/vstl.'),
 'C21': dict(specs=[dict(file='C21.cc', sources=['push/src/detail/curl_wrapper.cc'])],
   note='All methods, URLs (without NUL), bodies below 2^62 bytes, header lists, presetup callbacks (one that sets options, or none), transfer results and states an earlier request may have left in the handle: the real performHttpRequest, addHttpHeader and constructor are proved against a contract of libcurl (options accumulate on the handle until reset, a transfer sends what they say; specs/curl.h). Every use of the handle is shown to lie in one critical section of the wrapper. Trusted: that contract of libcurl, the engine, z3, the standard library contracts in /verif/vstl.'),
 'C20': dict(specs=[dict(file='C20.cc', sources=['push/src/gateway.cc'])],
   note='All numbers of registered collectables (alive or not), all URLs, bodies, methods and transfer results: the real push, async_push and Delete paths of Gateway are proved against the specification by loop summaries and the stated induction, performHttpRequest (decided as C21), Serialize (C14) and Collect being represented by contracts. Futures run synchronously at get(). Trusted: those contracts, std::future and weak_ptr contracts in /verif/vstl, the engine and z3.'),
 'C16': dict(specs=[dict(file='C16.cc', sources=['push/src/detail/label_encoder.cc']), dict(file='C16u.cc', sources=['push/src/gateway.cc', 'push/src/detail/label_encoder.cc'])],
   note='All label names, values, base URLs, jobs and label maps: the real encodeLabel (with the real base64url_encode) is proved equal to the specified segment form; the URLs the real Gateway constructors, RegisterCollectable, Delete and Push ask for are proved to be base, metrics path, job and labels in order, base64url_encode being represented by its contract there (decided as C15). Label names are taken to be valid (they are written as they are). Trusted: performHttpRequest and CurlWrapper constructor contracts, stream contracts, the engine, z3.'),
 'C18': dict(specs=[dict(file='C18.cc', sources=['pull/src/handler.cc']), dict(file='C18c.cc', sources=['pull/src/metrics_collector.cc'])],
   note='All sets of collectables (any number, alive or not), all request headers, bodies and compressed forms of any size, compression failing at any call: the real CollectMetrics, handleGet, WriteResponse and GZipCompress are proved against the specification; the compression loop is summarised, no bound. Represented by contracts: Collect and Serialize (C14) as functions of what they are given, zlib (deflate hands out the compressed form piece by piece or fails), mg_printf, mg_write and mg_get_header (recorded), Counter::Increment (C01), Summary::Observe. Trusted: those contracts, weak_ptr contract in /verif/vstl, the engine and z3.'),
 'C19': dict(specs=[dict(file='C19.cc', sources=['pull/src/handler.cc']), dict(file='C19e.cc', sources=['pull/src/exposer.cc', 'pull/src/endpoint.cc']), dict(file='C19a.cc', sources=['pull/src/exposer.cc', 'pull/src/endpoint.cc'])],
   note='All lists of collectables (any number, alive or not, with repetitions) and all exposers with any number of endpoints, no two with one URI: the real MetricsHandler, Endpoint and Exposer operations are proved to affect exactly the one named, to create an endpoint exactly for a new URI, and to install a new authentication before the old one is destroyed. Represented by contracts: CivetServer handler registration (recorded), MetricsHandler in the exposer part (decided by C19.cc), BasicAuthHandler and Registry constructors, weak_ptr. Trusted: those contracts, the engine and z3.'),
 'C13': dict(specs=[dict(file='C13.cc', sources=['core/src/text_serializer.cc'])],
   note='All label names and values and help texts, any bytes, any length, for each metric type: the real TextSerializer is proved to write a value as the texts of its bytes one after the other in a frame that does not depend on it, and every byte text is proved readable back whatever follows, distinct, and free of line breaks and closing quotes; un-escaping the whole then follows by induction over the bytes. Trusted: the stream contracts in /verif/vstl, the engine and z3.'),
 'C14': dict(specs=[dict(file='C14.cc', sources=['core/src/text_serializer.cc'], cost=dict(t_summary=9, t_histogram=9)), dict(file='C14l.cc', sources=['core/src/text_serializer.cc', 'core/src/serializer.cc'])],
   note='All families of each metric type with any number of metrics, labels, buckets, quantiles and any bytes in names, labels and help: what the real TextSerializer writes is proved equal to the specified exposition text, on a stream with any locale and precision, which are restored. How a stream prints a finite double in the C locale with 16 digits is uninterpreted. Trusted: the stream contracts in /verif/vstl, the engine and z3.'),
 'C01': dict(specs=[dict(file='C01.cc', sources=['core/src/counter.cc', 'core/src/gauge.cc'])],
   note='All counter values and amounts including NaN, infinities and negative numbers; each operation is proved to be one indivisible read-modify-write (or store) even if other threads change the value before every atomic access, so concurrent increments are all counted. Addition is uninterpreted (exactly value + amount as the code computes it). Termination of the retry loop is not proved. Trusted: std::atomic is linearizable (contract in /verif/vstl), the engine and z3.'),
 'C02': dict(specs=[dict(file='C02.cc', sources=['core/src/gauge.cc'])],
   note='All gauge values and amounts including NaN and infinities; each operation is proved to be one indivisible read-modify-write (or store) even if other threads change the value before every atomic access. Addition is uninterpreted (exactly value + amount). Termination of the retry loop is not proved. Trusted: std::atomic is linearizable (contract in /verif/vstl), time(), the engine and z3.'),
 'C09': dict(specs=[dict(file='C09.cc', sources=['core/src/family.cc', 'core/src/detail/utils.cc', 'core/src/gauge.cc'], cost=dict([('t_%s_%s' % (a, b), 9) for a in ('added', 'known') for b in ('counter', 'gauge', 'histogram', 'info', 'summary')]))],
   note='All families of each metric type with any number of metrics and labels, all label sets, names and help texts: the real Family constructor, Add, Remove and Has are proved against the specification, stated by looking up an arbitrary label set before and after. CheckMetricName and CheckLabelName are represented by contracts (functions of the name and type, decided as C08). A family is assumed to hold no label set that Add rejects (which Add keeps true). The table is a finite map whose contract needs equal keys to have equal hashes, which is proved of the real LabelHasher. Trusted: std::map, std::unordered_map and smart pointer contracts in /verif/vstl, the engine and z3.'),
 'C10': dict(specs=[dict(file='C10.cc', sources=['core/src/family.cc']), dict(file='C10r.cc', sources=['core/src/registry.cc', 'core/src/family.cc'])],
   note='All families of each metric type with any number of metrics and labels and all registries with any number of families of each type: the real Family::Collect and CollectMetric and Registry::Collect are proved against the specification. Represented by contracts: Collect of a metric (a sample determined by the metric, without labels; decided for histograms as C03 and for summaries as C05) and, in the registry part, Family::Collect (decided here). Samples are compared in the order in which the table is run through. Trusted: those contracts, std::map, std::unordered_map and vector contracts in /verif/vstl, the engine and z3.'),
 'C11': dict(specs=[dict(file='C11.cc', sources=['core/src/registry.cc', 'core/src/family.cc'])],
   note='All registries with any number of families of each type, both insert behaviours, all names, help texts and label sets: the real Registry::Add is proved to reject names of other types, to merge or throw, and otherwise to add exactly the new family. The Family constructor is represented by its contract (accepts or throws depending on name and labels; decided as C09). Trusted: that contract, std::vector and std::map contracts in /verif/vstl, the engine and z3.'),
 'C12': dict(specs=[dict(file='C12.cc', sources=['core/src/registry.cc', 'core/src/family.cc'])],
   note='All registries with any number of families of each type and all families given: the real Registry::Remove is proved to remove exactly that family, keep the order of the others, report whether it belonged to the registry and free its name. Destruction of the removed family is not modelled. Trusted: std::vector contracts in /verif/vstl, the engine and z3.'),
 'C05': dict(specs=[dict(file='C05.cc', sources=['core/src/summary.cc', 'core/src/detail/ckms_quantiles.cc'])],
   note='All summaries with any number of configured quantiles, any count and sum and all observed values including NaN: the real Summary constructors, Observe and Collect are proved against the specification, each under one lock, the history statement being the induction over these steps. Addition is uninterpreted (exactly sum + value in observation order). Represented by a contract: TimeWindowQuantiles (constructor, insert, get; decided as C07). Trusted: that contract, std::vector and std::chrono contracts in /verif/vstl, the engine and z3.'),
 'C06': dict(specs=[dict(file='C06.cc', sources=['core/src/detail/ckms_quantiles.cc'], defs=('-g',)),
                    dict(file='C06b.cc', sources=['core/src/detail/ckms_quantiles.cc'], defs=('-g',)),
                    dict(file='C06e.cc', sources=['core/src/detail/ckms_quantiles.cc'], defs=('-g',))],
   note='Every estimator state that satisfies the invariant (the sample is sorted, holds observed values only, weights are at least one and add up to count_; the buffer holds observed values) and every operation: constructor, insert, get, reset establish and keep it, get returns a value of the sample and NaN exactly without observations; insertBatch and compress keep it by loop invariants (stated in C06b.cc for the functions as they are, with a prefix-sum witness for the weights), all accesses in bounds. A refuted obligation that rests on a loop invariant is no alarm but undecided; the native histories decide then. Assumed: values are not NaN (precondition), fewer than 2^31 observations between two resets (int ranks), conversion of the allowed error to int in range (sensible quantile configuration), std::sort contract, double arithmetic abstract except comparisons. Rank accuracy is C23. Trusted: the engine and z3.'),
 'C07': dict(specs=[dict(file='C07.cc', sources=['core/src/detail/time_window_quantiles.cc', 'core/src/detail/ckms_quantiles.cc'])],
   note='All windows with any number of buckets, any positive interval, any clock readings that do not go back: the real TimeWindowQuantiles constructor, insert, get and rotate are proved to reset exactly the buckets that fell due in cyclic order, to give each value to every bucket and to ask the oldest one; two lemmas over these contracts (integer arithmetic, any history) give the age bounds. The window is age / buckets rounded down to whole nanoseconds times buckets. Represented by contracts: insert, get and reset of one CKMSQuantiles (recorded). Trusted: steady_clock is monotonic, std::vector and std::chrono contracts in /verif/vstl, the engine and z3.'),
 'C22': dict(specs=[dict(file='C22h.cc', sources=['core/src/histogram.cc', 'core/src/counter.cc', 'core/src/gauge.cc']),
                    dict(file='C22f.cc', sources=['core/src/family.cc', 'core/src/detail/utils.cc']),
                    dict(file='C22r.cc', sources=['core/src/registry.cc', 'core/src/family.cc']),
                    dict(file='C22s.cc', sources=['core/src/summary.cc', 'core/src/detail/time_window_quantiles.cc']),
                    dict(file='C22m.cc', sources=['pull/src/handler.cc', 'pull/src/metrics_collector.cc']),
                    dict(file='C22e.cc', sources=['pull/src/exposer.cc', 'pull/src/endpoint.cc']),
                    dict(file='C22g.cc', sources=['push/src/gateway.cc', 'push/src/detail/label_encoder.cc']),
                    dict(file='C22c.cc', sources=['push/src/detail/curl_wrapper.cc'])],
   note='Every public operation of Registry, Family, Histogram, Summary, MetricsHandler, Exposer, Gateway and CurlWrapper, in every state: each access to a field declared mutable is proved to happen with the lock of that object held and in one critical section, each field set at construction never to be written, no lock to be taken twice, and all locks to be free when the operation returns or throws. That no two threads race then follows because every shared field is declared one or the other (counters and gauges are atomic, C01 and C02). Represented by contracts: what user collectables, metric constructors and Collect do (any result, or an exception), zlib, libcurl, civetweb. Freedom from deadlock between two objects rests on the order registry, family, metric and exposer, handler and gateway, connection, which is read off the code and not proved. Trusted: std::mutex and std::lock_guard contracts in /verif/vstl, the engine and z3.'),
}
NA = {
 'C23': 'not a property the code can be shown to have: CKMSQuantiles::allowableError uses the number of samples, not of observations, and the rank-error argument is over floating-point arithmetic on unbounded histories, which no contract within reach of the verifier expresses',
}
