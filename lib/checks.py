A, T, PL = "asan", "tsan", "plain"
CHECKS = {}


def J(src, quick, thorough, variant=A, name=None, **k):
    return dict(name=name or src.replace(".cpp", ""), src=src, variant=variant, cases=[quick, thorough], **k)


def C(id, rule, *jobs, **k):
    CHECKS[id] = dict(jobs=list(jobs), rule=rule, **k)


C("C01", "a case is a seeded random operation history; distinct by the hash of its operation sequence", J("segarr.cpp", 12000, 80000))
C("C02", "a case is a seeded random operation history; distinct by the hash of its operation sequence", J("gapvec.cpp", 12000, 80000))
C("C03", "distinct input strings (hash of the bytes)", J("utf.cpp", 150000, 1000000, lib=["core/reference_counted.cpp"]))
C("C04", "distinct inputs (hash of the operands)", J("strutil.cpp", 200000, 1500000, lib=["core/string_utils.cpp"]))
C("C05", "distinct (text, patterns) pairs", J("patterns.cpp", 200000, 1500000, lib=["core/string_utils.cpp", "core/reference_counted.cpp"]))
C("C06", "distinct values / inputs", J("codecs.cpp", 40000, 400000, lib=["core/string_utils.cpp", "core/reference_counted.cpp", "core/crc.cpp", "core/uuid.cpp", "io/openssl.cpp", "core/service.cpp"]))
RC = ["core/reference_counted.cpp"]
C("C07", "distinct documents (hash of the text)", J("json.cpp", 400000, 4000000, lib=RC))
C("C08", "distinct documents and edit histories (hash of the text / of the operation log)", J("jsonedit.cpp", 400000, 600000, lib=RC))
C("C09", "distinct documents and edit histories", J("xml.cpp", 400000, 4000000, lib=RC))
C("C15", "distinct operation histories and thread workloads", J("refs.cpp", 60000, 600000, lib=RC), J("refs.cpp", 400, 4000, variant=T, name="refs-threads", flags=["-DVF_THREADS"], lib=RC))
C("C16", "distinct operation histories", J("containers.cpp", 60000, 500000, lib=RC))
C("C17", "distinct operation histories", J("values.cpp", 100000, 800000, lib=RC))
C("C18", "distinct operation histories and inputs", J("strings.cpp", 60000, 500000, lib=RC))
LT = RC + ["core/mutex.cpp", "core/lifetime.cpp", "core/service.cpp", "core/uuid.cpp", "io/openssl.cpp"]
EV = LT + ["task/event.cpp"]
C("C24", "distinct operation histories and delivery orders", J("events.cpp", 40000, 400000, lib=EV), J("events.cpp", 1500, 20000, variant=T, name="events-threads", flags=["-DVF_THREADS"], lib=EV), J("events.cpp", 1200, 15000, name="events-threads-asan", flags=["-DVF_THREADS"], lib=EV))
TH = ["task/thread.cpp", "task/thread_pool.cpp", "task/waitable_event.cpp"]
C("C23", "distinct workloads (shape, seeds and what ran)", J("pool.cpp", 10000, 100000, variant=T, name="pool-tsan", lib=TH), J("pool.cpp", 15000, 40000, lib=TH))
SY = LT + ["task/thread.cpp", "task/waitable_event.cpp"]
C("C26", "distinct workloads and operation histories", J("sync.cpp", 3000, 40000, variant=T, name="sync-tsan", lib=SY), J("sync.cpp", 2500, 30000, variant=T, name="sync-noprofile", flags=["-DNEOS_DISABLE_PROFILE_MUTEX"], lib=SY),
  J("sync.cpp", 3000, 30000, name="sync-asan", lib=SY), J("sync.cpp", 20000, 200000, name="sync-history", flags=["-DVF_HISTORY"], lib=SY))
TK = SY + ["app/module.cpp", "posix/app/posix_module.cpp"] + ["task/%s.cpp" % n for n in ("event", "time_slice", "async_task", "async_thread", "timer", "timer_object")]
C("C25", "distinct operation histories (hash of the operation log) and workloads", J("timers.cpp", 60000, 600000, lib=TK), J("timers.cpp", 4000, 40000, variant=T, name="timers-tsan", flags=["-DVF_THREADS"], lib=TK), J("timers.cpp", 3000, 30000, name="timers-threads", flags=["-DVF_THREADS"], lib=TK))
C("C22", "distinct operands (hash of their values)", J("numerics.cpp", 500000, 5000000, lib=RC), J("numerics.cpp", 200000, 2000000, name="numerics-dynamic", flags=["-DUSE_AVX_DYNAMIC", "-DUSE_EMM_DYNAMIC"], lib=RC))
C("C27", "distinct operands (hash of their values)", J("geometry.cpp", 600000, 6000000, lib=RC))
C("C19", "distinct operation histories and thread workloads", J("jars.cpp", 30000, 200000, lib=RC), J("jars.cpp", 1500, 15000, variant=T, name="jars-threads", flags=["-DVF_THREADS"], lib=RC))
C("C36", "distinct operation histories", J("smallvec.cpp", 60000, 600000, lib=RC))
C("C20", "distinct operation histories", J("seqindex.cpp", 60000, 400000, lib=RC))
C("C21", "distinct operation histories", J("trees.cpp", 20000, 200000, lib=RC))
C("C29", "distinct key sequences and operation histories", J("sorttree.cpp", 20000, 300000, lib=RC))
C("C33", "distinct operation histories", J("utilities.cpp", 100000, 1000000, lib=RC))
C("C11", "distinct archives (hash of their bytes)", J("archives.cpp", 40000, 400000, lib=RC + ["core/crc.cpp", "file/zip.cpp", "file/gunzip.cpp"], flags=["-lz"]))
C("C14", "distinct URI strings", J("uris.cpp", 200000, 2000000, lib=RC + ["core/string_utils.cpp", "io/uri.cpp"]))
EC = TK + ["task/thread_pool.cpp", "app/power.cpp"] + ["ecs/%s.cpp" % n for n in ("ecs", "entity", "entity_archetype", "system", "time")]
C("C28", "distinct operation histories and workloads (hash of the operation log)", J("ecs.cpp", 100000, 800000, lib=EC), J("ecs.cpp", 12000, 100000, variant=T, name="ecs-tsan", flags=["-DVF_THREADS"], lib=EC), J("ecs.cpp", 8000, 80000, name="ecs-threads", flags=["-DVF_THREADS"], lib=EC))
C("C31", "distinct operation histories and first-use orders", J("lifetimes.cpp", 150000, 1000000, lib=LT), J("lifetimes.cpp", 12000, 80000, name="services", flags=["-DVF_SERVICES"], lib=LT), J("lifetimes.cpp", 10000, 60000, variant=T, name="services-tsan", flags=["-DVF_SERVICES"], lib=LT), J("lifetimes.cpp", 5000, 20000, name="objects", flags=["-DVF_OBJECTS"], lib=TK))
C("C30", "distinct operation histories, paths and buffers", J("files.cpp", 80000, 600000, lib=RC + ["core/string_utils.cpp", "file/file.cpp"]))
C("C12", "distinct streams, ways of cutting them and contents", J("packets.cpp", 600000, 4000000))
C("C13", "distinct histories of events and operations (hash of the log)", J("streams.cpp", 8000, 15000, lib=TK + ["core/string_utils.cpp"]))
C("C34", "distinct operation histories and texts written by threads", J("logging.cpp", 40000, 400000, lib=TK), J("logging.cpp", 3000, 30000, variant=T, name="logging-tsan", flags=["-DVF_THREADS"], lib=TK), J("logging.cpp", 4000, 30000, name="logging-threads", flags=["-DVF_THREADS"], lib=TK))
C("C37", "distinct operation histories and file contents", J("settings.cpp", 30000, 300000, lib=TK + ["core/string_utils.cpp", "app/settings.cpp"]))
