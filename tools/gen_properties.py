#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "A token is granted exactly for a correct, sufficient proof of work",
     "A submission earns a verification token exactly when it names an outstanding challenge issued for the claimed site, its claimed result is the true salted SHA-256 score of that challenge string and nonce, and that score reaches the difficulty the challenge was issued at. Every other submission is refused with an error and no token comes into existence for it. The difficulty reported together with a token is the one the challenge was issued at, whatever the site's difficulty has become since.",
     ["inputs", "histories"],
     "all salts, site names, challenge strings, difficulties, nonces over the whole 64-bit range, claimed results and tamperings of a submission, and all site loads between issue and submission",
     "verify_pow_works tries one good and three bad submissions with one salt, one site and the lowest difficulty; the accept/reject boundary over results, nonces, strings, keys and difficulties is never explored.",
     ["src/system.rs", "src/pow.rs"],
     [("cached challenge", "site key, difficulty and lifetime a challenge string was issued with", "src/cache/mod.rs messages::CachedPoWConfig"),
      ("system PoW configuration", "salt all proofs are computed under", "src/system.rs System.pow")],
     [("System::verify_pow", "src/system.rs"), ("QueuedWork::validate", "src/pow.rs")],
     ["return value of System::verify_pow", "messages reaching the cache actor", "System::validate_verification_tokens on the returned token"])

prop("C02", "A challenge can be redeemed at most once",
     "However often and from however many concurrent callers a challenge is submitted, at most one submission earns a token, and if all of them are correct exactly one does. The first submission of a challenge under its own site key consumes it, also when its proof is refused, so that every later submission of it is refused. Redeeming or failing one challenge leaves every other outstanding challenge redeemable.",
     ["schedules", "histories"],
     "all sequences and interleavings of submissions of valid, invalid and replayed solutions over any set of outstanding challenges, from any number of threads",
     "No test ever submits the same solution twice, let alone concurrently; replay resistance is a headline promise of the README.",
     ["src/cache/hashcache.rs", "src/system.rs"],
     [("outstanding challenges", "challenge string to issue data", "src/cache/hashcache.rs HashCache.difficulty_map")],
     [("destructive challenge lookup", "src/cache/hashcache.rs HashCache::retrive_pow_config")],
     ["results of concurrent System::verify_pow calls"])

prop("C03", "A verification token validates once, and only for its own site",
     "A token returned by an accepted submission validates as true exactly once within its lifetime, for the site its challenge was issued for. Validation answers false for tokens that were never issued, are altered in any way, were already validated, or are presented under any other site's key, no matter how many validations run concurrently. Validating, or failing to validate, one token does not affect any other token.",
     ["schedules", "histories", "inputs"],
     "all tokens, site keys (including near misses: case, whitespace, prefixes, concatenations) and all interleavings of validations",
     "hashcache_result_cache_works validates one token, one key and one repetition sequentially.",
     ["src/cache/hashcache.rs", "src/system.rs"],
     [("live tokens", "token to site key", "src/cache/hashcache.rs HashCache.result_map")],
     [("destructive token lookup with key comparison", "src/cache/hashcache.rs HashCache::verify_captcha_result")],
     ["results of System::validate_verification_tokens"])

prop("C04", "Challenges and tokens live exactly as long as the site's duration",
     "A freshly issued challenge can be redeemed, and a freshly minted token validated, at every moment until the duration in seconds configured for its site has passed since it was issued, and at no moment after that. A token gets its full duration however late its challenge was redeemed. The lifetime of one entry is independent of every other entry and of which entries have already been used or have expired.",
     ["histories", "inputs"],
     "all durations of at least one second, all issue/redeem/validate times, and all mixes of entries with different durations",
     "The tests wait out one 5 second duration for one entry each, checking only long after expiry; nothing checks that entries survive until shortly before expiry or that lifetimes do not interfere.",
     ["src/cache/hashcache.rs", "src/system.rs", "src/cache/mod.rs"],
     [("expiry timers", "one pending deletion per stored entry", "src/cache/hashcache.rs Handler<CachePoW>, Handler<CacheResult>")],
     [("delayed deletion", "src/cache/hashcache.rs"), ("duration carried from site to challenge to token", "src/system.rs, src/cache/mod.rs")],
     ["results of verify_pow / validate_verification_tokens / cache messages at controlled virtual times"])

prop("C05", "An issued challenge matches its site and is always redeemable",
     "Asking for a challenge for a registered site counts one visitor and returns a new challenge whose difficulty is the site's current difficulty after that visitor, whose salt is the system's salt, and which the cache holds for exactly that site, difficulty and duration before it is handed out. Asking for an unregistered name returns no challenge, stores nothing and registers nothing. If the cache fails to store the challenge, the caller gets an error and no challenge.",
     ["inputs", "histories", "fault_sequences"],
     "all sets of registered sites, names, loads and defence configurations, and all cache failures during issue",
     "get_pow_works issues one challenge for one site; unknown names, higher levels and failing stores are never exercised.",
     ["src/system.rs", "src/pow.rs", "src/master/embedded/master.rs"],
     [("registered sites", "name to counter", "src/master/embedded/master.rs Master.sites")],
     [("System::get_pow", "src/system.rs"), ("AddVisitor routing", "src/master/embedded/master.rs")],
     ["System::get_pow result", "CachePoW messages seen by the cache", "registry snapshot"])

prop("C06", "Challenge strings and tokens are unpredictable and never repeat",
     "Every challenge string and every token consists of 32 alphanumeric characters drawn uniformly and independently from all 62. No two of them are ever equal, across threads, systems and processes started at the same time. A token cannot be derived from the challenge, site or duration it was minted for: minting twice from equal data gives different tokens.",
     ["histories", "schedules"],
     "all sequences of issued challenges and tokens over threads and processes",
     "No test looks at the strings at all, and only a statistical monitor over very many of them can notice lost entropy, a shared seed or a narrowed alphabet.",
     ["src/utils.rs", "src/pow.rs", "src/cache/mod.rs"],
     [("thread random generator", "source of all strings", "src/utils.rs get_random")],
     [("get_random", "src/utils.rs"), ("CachedPoWConfig to CacheResult", "src/cache/mod.rs")],
     ["PoWConfig.string", "CacheResult.token", "tokens returned by verify_pow"])

prop("C07", "Only valid configurations can be built, and they are built faithfully",
     "A defence is built exactly when it has at least one level, all visitor thresholds are distinct, no difficulty is zero, and difficulty never decreases as the threshold grows; adding a level is refused exactly when its threshold is already present, leaving the earlier levels in place. The built defence has exactly the accepted levels in ascending threshold order, whatever the order of adding, and starts at the lowest; stepping it up or down reads back each level's own threshold and difficulty and stops at the ends. A level needs both values and a non-zero difficulty, and a site configuration needs a defence and a non-zero duration; each missing or invalid value is reported by its own error.",
     ["inputs", "programs"],
     "all sequences of builder calls with any 32-bit thresholds and difficulties, in any order, including retries after an error",
     "Four example configurations are tested; the accept/reject boundary, order independence and extreme values are not.",
     ["src/defense.rs", "src/mcaptcha.rs"],
     [("levels under construction", "accepted so far", "src/defense.rs DefenseBuilder.levels")],
     [("LevelBuilder", "src/defense.rs"), ("DefenseBuilder::add_level / build", "src/defense.rs"), ("MCaptchaBuilder::build", "src/mcaptcha.rs")],
     ["builder results", "Vec<Level> of the built defence", "difficulty under tighten_up"])

prop("C08", "Difficulty follows the visitor load one level at a time",
     "With every arriving visitor the site's level moves at most one step towards the level its visitor count (that visitor included) calls for, and stays there once reached: the lowest level whose threshold is not exceeded by the count, or the highest level if all are exceeded. The difficulty told to the visitor is the one of the level after that step; it is always one of the configured difficulties and, until the first visitor leaves, never falls. Visitors leaving, and reads of any kind, do not change the level.",
     ["inputs", "histories"],
     "all valid defences (one to hundreds of levels), all sequences of arrivals and departures, counts over the whole 32-bit range",
     "Two fixed points of one two-level defence are tested (one chosen such that an oscillating level goes unnoticed).",
     ["src/mcaptcha.rs", "src/defense.rs", "src/master/embedded/counter.rs"],
     [("current level", "index into the levels", "src/defense.rs Defense.current_visitor_threshold"),
      ("visitor count", "live visitors", "src/mcaptcha.rs MCaptcha.visitor_threshold")],
     [("MCaptcha::add_visitor", "src/mcaptcha.rs"), ("Defense::tighten_up / loosen_up", "src/defense.rs")],
     ["AddVisitorResult.difficulty_factor", "MCaptcha::get_difficulty", "Defense::current_level"])

prop("C09", "A site's visitor count is the number of arrivals in its last duration",
     "At every moment a site's visitor count equals the number of visitors that arrived within the site's duration before that moment: each arrival counts at once, counts exactly once, and stops counting when the duration has passed. The count never goes below zero and returns to zero when visitors stop coming. Bulk decrements subtract exactly the given number, or stop at zero.",
     ["histories", "schedules"],
     "all arrival patterns over time (bursts, trickles, gaps around the duration) and durations, from any number of clients",
     "The tests count four arrivals and observe one full decay to zero; nothing checks the count while old and new visitors overlap.",
     ["src/master/embedded/counter.rs", "src/mcaptcha.rs"],
     [("visitor count", "live visitors", "src/mcaptcha.rs MCaptcha.visitor_threshold")],
     [("delayed decrement per arrival", "src/master/embedded/counter.rs Handler<AddVisitor>"), ("MCaptcha::decrement_visitor_by", "src/mcaptcha.rs")],
     ["GetCurrentVisitorCount", "GetInternalData", "MCaptcha::get_visitors"])

prop("C10", "The site registry behaves as a map of isolated sites",
     "Adding a site makes exactly that name answer with that configuration and no visitors, replacing a previous site of the same name; removing it makes exactly that name unknown; renaming moves configuration, visitors and level unchanged to the new name, replacing any site there, and does nothing for an unknown name. Operations on one name never change the configuration, count or level of any other site. Every request is answered, also under concurrent use, and names are compared exactly.",
     ["histories", "schedules", "inputs"],
     "all sequences and interleavings of add, remove, rename, visit, lookup and snapshot requests over any names",
     "master_actor_works adds one site and renames it once; no test has two sites, removes a live one, or renames onto an existing or unknown name.",
     ["src/master/embedded/master.rs"],
     [("registered sites", "name to (visited flag, counter)", "src/master/embedded/master.rs Master.sites")],
     [("add_site / rm_site / rename / get_site", "src/master/embedded/master.rs")],
     ["replies of the registry actor", "GetInternalData snapshot"])

prop("C11", "Idle collection removes exactly the idle sites and never breaks the registry",
     "A site that has been used is removed at the latest by the second collection after its last visitor left and it was last looked up. Collection never removes a site that has live visitors, one that has not been used since it was added or renamed, or one that was re-added or renamed while a collection was running. Whatever requests race with a collection, the registry keeps answering and later collections still happen.",
     ["schedules", "histories"],
     "all interleavings of a running collection with visits, additions, removals, renames and restores, all collection periods and site durations",
     "One test waits for one site to be collected; nothing runs requests while a collection is in progress, and the windows are a few task switches wide.",
     ["src/master/embedded/master.rs", "src/master/embedded/counter.rs"],
     [("visited flag", "site used since it was added", "src/master/embedded/master.rs Master.sites .0")],
     [("periodic CleanUp", "src/master/embedded/master.rs Handler<CleanUp>"), ("Stop", "src/master/embedded/counter.rs")],
     ["registry lookups and snapshots around collection instants", "liveness probe of the registry", "panic hook"])

prop("C12", "Restoring a snapshot reproduces every site's state, and it expires as usual",
     "A snapshot reports, for every registered site, its configuration, visitor count and level at that time. After restoring it, into the same registry or an empty one, every site in it is registered with exactly that state, sites not in it are untouched, and later visitors are served from that state. Restored visitors stop counting one duration after the restore, neither earlier because of visits made before the restore nor later, and visitors arriving after the restore count for their own full duration.",
     ["histories", "crash_points"],
     "all snapshots taken and restored at any time of any history, into live, partially overlapping or fresh registries",
     "Tests restore one snapshot into the same registry and look once, right after it; restoring into a fresh registry (the purpose of the feature) is never tested.",
     ["src/master/embedded/master.rs", "src/master/embedded/counter.rs", "src/mcaptcha.rs"],
     [("site state", "configuration, count, level", "src/mcaptcha.rs MCaptcha")],
     [("SetInternalData", "src/master/embedded/master.rs, src/master/embedded/counter.rs"), ("BulkDecrement", "src/master/embedded/counter.rs")],
     ["GetInternalData", "AddVisitor replies", "counts at controlled virtual times"])

prop("C13", "Every admitted proof check runs exactly once and its caller gets its answer",
     "Every submission that is admitted is checked exactly once by some worker and its caller receives the verdict of that very submission, without any further submission having to arrive. This holds for every number of workers of at least one, every number of client addresses and every arrival order. A submission refused at admission is never checked.",
     ["schedules", "histories", "configurations"],
     "all worker counts, address populations, arrival orders and interleavings of submitters and workers",
     "abuse_manager drains an empty range of its receivers and so verifies no completion at all; the other test uses a single address.",
     ["src/queue.rs", "src/system.rs", "src/pow.rs"],
     [("per-address queues", "waiting jobs", "src/queue.rs InnerManager.queues"), ("rotation", "addresses to serve", "src/queue.rs InnerManager.ips")],
     [("schedule / dispatch_to", "src/queue.rs"), ("worker loop", "src/queue.rs RunnerThread::run")],
     ["verify_pow completion and verdict", "execution log of instrumented jobs"],
     "re-export of the queue's Manager and Runnable under cfg(libmcaptcha_verif)")

prop("C14", "Submissions are refused as 'queue full' only while the queue really is full",
     "With a queue length of L, a submission is refused with the queue-full error exactly when L different client addresses have submissions waiting for a worker at that moment. Once waiting submissions have been taken up by workers, new ones are admitted again, no matter how many different addresses have been seen since start. The memory held for client addresses does not outlive their waiting submissions.",
     ["histories", "configurations"],
     "all queue lengths, worker counts and sequences of submissions from any number of distinct addresses",
     "No test reaches the queue length; it only shows after as many distinct addresses as the configured length have been seen.",
     ["src/queue.rs"],
     [("per-address queues", "waiting jobs", "src/queue.rs InnerManager.queues"), ("limit", "maximum number of queues", "src/queue.rs InnerManager.queue_length")],
     [("admission test in schedule", "src/queue.rs InnerManager::schedule")],
     ["result of verify_pow / Manager::add under held workers"],
     "re-export of the queue's Manager and Runnable under cfg(libmcaptcha_verif)")

prop("C15", "One client address cannot starve the others",
     "Waiting submissions of one client address are started in the order they were admitted. While several addresses have submissions waiting, each of them gets a turn before any of them gets a second one. A free worker always takes up a waiting submission, so that as many submissions are in progress as there are workers whenever enough are waiting.",
     ["schedules", "histories"],
     "all backlogs, per-address and in total, all worker counts and all arrival orders",
     "Scheduling by address was introduced for exactly this, but no test ever has two addresses with a backlog.",
     ["src/queue.rs"],
     [("rotation", "addresses to serve", "src/queue.rs InnerManager.ips")],
     [("round-robin dispatch", "src/queue.rs InnerManager::dispatch_to")],
     ["start order and concurrency of instrumented jobs under gated workers"],
     "re-export of the queue's Manager and Runnable under cfg(libmcaptcha_verif)")

prop("C16", "Shutting the system down ends all its workers and never invents a verdict",
     "Dropping a system terminates within bounded time, also with a backlog, and afterwards none of its worker or dispatcher threads is left. Submissions a worker has already taken up are finished; those still waiting are discarded, their waiting parties see a closed channel or an error, never success. Creating and dropping systems repeatedly leaks no threads.",
     ["crash_points", "schedules", "configurations"],
     "all moments of shutdown relative to submissions in progress and waiting, and all worker counts",
     "Tests drop idle managers only and never look at the threads or at waiting submissions.",
     ["src/queue.rs"],
     [("worker threads", "joined on drop", "src/queue.rs InnerManager.runners")],
     [("Drop for Manager / InnerManager", "src/queue.rs")],
     ["thread count from the operating system", "execution log", "channels of discarded jobs"],
     "re-export of the queue's Manager and Runnable under cfg(libmcaptcha_verif)")

prop("C17", "The Redis cache gives the same one-shot guarantees as the embedded one",
     "Through a Redis-backed cache a stored challenge is returned with the site, difficulty and lifetime it was stored with, for its own site only, and a stored token validates true exactly once and only for the exact site and token it was stored for, for all site names and tokens. Each entry is stored with exactly its duration as lifetime, and each lookup is one atomic server-side operation that also consumes the entry, so two servers sharing one Redis can never both accept it.",
     ["inputs", "schedules", "histories"],
     "all site names, tokens and durations, all interleavings of clients and of several instances sharing one Redis",
     "The Redis tests need a server with the mCaptcha module and do not run here; they use one name and one token.",
     ["src/cache/redis.rs", "src/redis/mcaptcha_redis.rs"],
     [("token key", "Redis key derived from site and token", "src/redis/mcaptcha_redis.rs add_token / get_token")],
     [("SET with expiry / DEL", "src/redis/mcaptcha_redis.rs"), ("ADD_CHALLENGE / GET_CHALLENGE", "src/redis/mcaptcha_redis.rs")],
     ["replies of the cache actor", "command log and key space of a monitored Redis stand-in"])

prop("C18", "The Redis registry forwards every request faithfully",
     "Each registry request sent to a Redis-backed registry results in exactly one corresponding module command, carrying exactly the given names and, when adding a site, all its levels in order and its duration. The duration and difficulty answered for a visitor, the visitor count, and whether a site exists are exactly what the server answered. Requests are executed in the order they were sent.",
     ["inputs", "histories", "schedules"],
     "all names, defences, durations and server replies, and all sequences of requests",
     "The Redis tests need a server with the mCaptcha module and do not run here; they use one name, one configuration and ignore most replies.",
     ["src/master/redis/master.rs", "src/redis/mcaptcha_redis.rs", "src/mcaptcha.rs"],
     [("site registration payload", "levels and duration as JSON", "src/master/mod.rs CreateMCaptcha")],
     [("command construction and reply decoding", "src/redis/mcaptcha_redis.rs"), ("serialised handling", "src/master/redis/master.rs")],
     ["command log of a monitored Redis stand-in", "replies of the registry actor"])

prop("C19", "Redis trouble is reported to the caller and never takes the service down",
     "An error reply, malformed reply, closed connection or unreachable server makes the affected request fail with an error; it is never answered with a made-up success and never panics. The cache and the registry keep serving: once Redis answers again, following requests succeed. This also holds when requesters give up waiting, and when several users of one connection handle issue commands concurrently.",
     ["fault_sequences", "schedules", "crash_points"],
     "all placements of server errors, garbage, disconnects, delays and abandoned requests in any request sequence",
     "No test injects any fault; failures only show as a crashed actor under fault.",
     ["src/redis/mod.rs", "src/redis/mcaptcha_redis.rs", "src/cache/redis.rs", "src/master/redis/master.rs"],
     [("shared connection", "one connection handle shared by all users", "src/redis/mod.rs RedisConnection")],
     [("RedisConnection::exec", "src/redis/mod.rs"), ("reply channels", "src/cache/redis.rs, src/master/redis/master.rs")],
     ["replies under a fault-injecting Redis stand-in", "panic hook", "liveness probes"])

prop("C20", "Connecting succeeds exactly against a Redis with a complete mCaptcha module",
     "Creating a Redis-backed cache or registry succeeds exactly when the server has the mCaptcha module loaded, at whatever position among its modules, and offers every module command the library uses. If the module is missing, the module-not-loaded error is returned; if a command is missing, the error names a missing command. If the server cannot be asked, an error is returned instead of a panic.",
     ["configurations", "fault_sequences"],
     "all module lists, all subsets of available commands, and servers refusing or failing the queries",
     "CI only ever connects to a complete server, and here the only outcome ever produced is module-not-loaded.",
     ["src/redis/mcaptcha_redis.rs", "src/redis/mod.rs"],
     [("required commands", "commands probed on connect", "src/redis/mcaptcha_redis.rs is_module_loaded")],
     [("is_module_loaded", "src/redis/mcaptcha_redis.rs")],
     ["result of constructing cache and registry against a monitored Redis stand-in"])

prop("C21", "Serialised site state and messages survive a round trip unchanged",
     "Serialising a site's state to JSON and reading it back, at any point of its life, gives a site that answers every later visitor, decrement and query exactly as the original would. The registration form of a site carries exactly its levels in ascending order and its duration. All public message and result types read back equal to what was written.",
     ["inputs", "histories"],
     "all defences, durations, counts and levels over their full integer ranges and any names and strings",
     "No test serialises anything, although snapshots are meant to be stored and the Redis module depends on the format.",
     ["src/mcaptcha.rs", "src/defense.rs", "src/master/mod.rs", "src/cache/mod.rs", "src/pow.rs"],
     [("site state", "configuration, count, level", "src/mcaptcha.rs MCaptcha")],
     [("serde derives", "src/mcaptcha.rs, src/defense.rs, src/master/mod.rs"), ("From<MCaptcha> for CreateMCaptcha", "src/mcaptcha.rs")],
     ["JSON text", "behaviour of the original and the restored value side by side"])

prop("C22", "Abandoned requests do not harm the service or other clients",
     "A caller may drop any request to the system, the cache or the registry at any point, before or after its reply is ready, without any later request by others failing, hanging or being answered differently. An abandoned submission redeems its challenge at most once and yields at most one token. No actor or worker ends because of an abandoned request.",
     ["schedules", "crash_points"],
     "all requests and all suspension points at which they can be dropped, in any mix with other clients' requests",
     "Tests always await every reply; web servers drop request futures whenever a client disconnects.",
     ["src/system.rs", "src/cache/hashcache.rs", "src/master/embedded/master.rs", "src/queue.rs"],
     [("reply channels", "one-shot channel per request", "src/cache/hashcache.rs, src/master/embedded/master.rs, src/queue.rs")],
     [("System::get_pow / verify_pow / validate_verification_tokens", "src/system.rs"), ("job result channel", "src/pow.rs")],
     ["replies to later requests", "panic hook", "liveness probes"])

prop("C23", "Concurrent use is free of data races and undefined behaviour",
     "Using one system from many threads at once, including its worker threads, expiry and shutdown, contains no data race, no use of freed memory, no leak of a worker's memory and no other undefined behaviour, in the library and in what it is built on. No use of the public interface with valid arguments panics.",
     ["schedules"],
     "all interleavings of threads using one system, its cache, registry and workers",
     "The tests run uninstrumented and on one thread per system.",
     ["src/lib.rs", "src/queue.rs", "src/system.rs"],
     [("channels and shared handles", "state shared between threads", "src/queue.rs, src/system.rs")],
     [("safe Rust (unsafe code forbidden) and message passing", "src/lib.rs"), ("channel hand-over", "src/queue.rs")],
     ["reports of ThreadSanitizer, AddressSanitizer and LeakSanitizer", "panic hook"],
     "re-export of the queue's Manager and Runnable under cfg(libmcaptcha_verif)")

prop("C24", "What is used up, expired or gone takes no memory, threads or connections",
     "Serving visitors indefinitely takes no growing resources: once challenges and tokens have been used or have expired, visitors have left, submissions have been answered, refused or discarded, and sites have been removed or collected, the memory they took is released, so that equal rounds of use leave equal amounts in use. Refused requests for unknown names, challenges and tokens store nothing. When systems and connections are dropped, their memory, threads and open connections go with them.",
     ["histories", "inputs"],
     "all long histories of visitors, submissions, validations and sites, used up, expired, refused or abandoned in any proportion",
     "Tests run for seconds and never look at what stays behind.",
     ["src/cache/hashcache.rs", "src/queue.rs", "src/master/embedded/master.rs", "src/master/embedded/counter.rs", "src/redis/mod.rs"],
     [("cache maps", "challenges and tokens", "src/cache/hashcache.rs"), ("queue", "submissions per client address", "src/queue.rs InnerManager"), ("registry", "sites", "src/master/embedded/master.rs Master")],
     [("expiry timers", "src/cache/hashcache.rs"), ("removal and collection", "src/master/embedded/master.rs"), ("queue clean-up", "src/queue.rs"), ("drop of the worker threads", "src/queue.rs")],
     ["counting allocator", "thread and file descriptor lists of the operating system"])

prop("C25", "A submission that waits holds up nobody else",
     "While a submission waits for a worker or for its verdict, its task is suspended: everything else on the same thread goes on, in particular challenges, validations, registry requests, timers and expiry, and submissions for which a worker is free get their verdict. Waiting takes no processor time. As soon as a verdict is there, its caller is resumed.",
     ["schedules", "histories"],
     "all numbers of submissions that wait for busy workers, and all other requests and timers served meanwhile on the same threads",
     "The tests await one request at a time and their proofs are checked within a millisecond, so it never shows whether a caller was suspended or the thread blocked.",
     ["src/system.rs", "src/pow.rs", "src/queue.rs"],
     [("result channel", "verdict of one submission", "src/pow.rs QueuedWork.tx"), ("queue", "submissions that wait for a worker", "src/queue.rs InnerManager")],
     [("System::verify_pow awaiting the verdict", "src/system.rs"), ("Manager::add", "src/queue.rs"), ("worker threads", "src/queue.rs")],
     ["order of replies on one thread while workers are held", "wake-ups of the waiting futures", "processor time of the thread"])

prop("C26", "A refusal or failure tells the caller its cause",
     "Whoever is refused is told a cause that applies to that very request: an unknown, used-up or expired challenge of the embedded cache is StringNotFound, another site's key MCaptchaKeyValidationFail, too low a result InsuffiencientDifficulty, an untrue or unreadable one that or InvalidPoW, a full queue QueueFull; a site that does not exist gets no challenge and no error. A failure of the registry, the cache or Redis reaches the caller of the request it belongs to unchanged (an error of the server as RedisError with its text), a lost reply as RecvError, an actor that is gone as MailboxError; it is never turned into success or into a refusal. Different errors read differently and keep their details.",
     ["inputs", "histories", "crash_points"],
     "all causes of refusal and all failures of registry, cache, queue and Redis, at every step of every request, alone and among concurrent requests with other fates",
     "The tests look at four refusals of single requests; no test lets a part of the system fail.",
     ["src/errors.rs", "src/system.rs", "src/queue.rs", "src/redis/mcaptcha_redis.rs", "src/cache/redis.rs"],
     [("error kinds", "CaptchaError", "src/errors.rs")],
     [("System::get_pow / verify_pow / validate_verification_tokens", "src/system.rs"), ("error conversions", "src/errors.rs"), ("Manager::add", "src/queue.rs"), ("reply handling", "src/redis/mcaptcha_redis.rs")],
     ["results of every request, compared with the cause that was arranged", "text of the errors"])

prop("C27", "The embedded cache keeps exactly what was stored last",
     "Whoever speaks to the embedded cache directly finds a faithful store: looking up a challenge returns exactly the site key, difficulty and duration stored last under exactly that text, once, and nothing for any other text; a token answers true once, for exactly the token and site stored last. Challenges and tokens are kept apart, also under the same text, and every text will do. Storing under a text that is or was in use replaces the entry and its lifetime begins anew: an earlier entry of that text, whether replaced, redeemed, deleted or expired, does not shorten or lengthen it. Deleting removes exactly the named entry.",
     ["histories", "inputs", "schedules"],
     "all sequences of messages to the cache, with repeating and similar texts, from any number of senders and at any times",
     "The tests store one entry of each kind, look it up, and see one of them expire; no text is ever used again.",
     ["src/cache/hashcache.rs", "src/cache/mod.rs"],
     [("entries and their timers", "challenges, tokens and when each ends", "src/cache/hashcache.rs HashCache")],
     [("handlers of CachePoW, RetrivePoW, DeletePoW, CacheResult, VerifyCaptchaResult, DeleteCaptchaResult", "src/cache/hashcache.rs"), ("expiry timers", "src/cache/hashcache.rs")],
     ["replies of the cache, compared with a map whose entries end at an instant"])

prop("C28", "Systems that share a cache and a registry act as one",
     "Any number of systems with the same salt on the same cache and registry, or on connections of their own to the same Redis server, are interchangeable: a challenge handed out by one is redeemed at any other and a token minted by one validated at any other, with the very guarantees a single system gives (once only, within its lifetime, at its difficulty, for its site, every visitor counted once), also when the same proof or token is presented to several of them at once and while systems are dropped and built. Busy workers, a full queue or the end of one system do not affect submissions to another. Systems with different salts do not accept each other's proofs.",
     ["histories", "schedules", "inputs"],
     "all histories and interleavings of requests spread over any number of systems on one cache and registry, with systems coming and going",
     "Every test builds one system and stays with it, so whatever a system might keep to itself goes unnoticed.",
     ["src/system.rs", "src/queue.rs", "src/cache/hashcache.rs", "src/cache/redis.rs", "src/master/embedded/master.rs", "src/master/redis/master.rs"],
     [("shared state", "challenges, tokens and sites", "cache and registry actors or the Redis server"), ("own state", "submissions waiting at each system", "src/queue.rs InnerManager")],
     [("System::get_pow / verify_pow / validate_verification_tokens", "src/system.rs"), ("SystemBuilder::build", "src/system.rs"), ("drop of a system", "src/queue.rs")],
     ["replies of every system judged by one model of all of them", "tokens counted per challenge and validations per token over all systems"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
