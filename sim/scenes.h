// Scenarios of the table harness beyond committing: reading, following, cleaning, creating, writing.

void Tune(ReadContextBuilder& b) {
    if (Pick("mt", 2)) b.EnableMultiThreadRowToBatch(true).SetRowToBatchThreadNumber(1 + Pick("mtn", 3));
    if (Pick("prefetch", 2)) {
        uint32_t par = 1 + Pick("pthreads", 3);
        b.EnablePrefetch(true).SetPrefetchMaxParallelNum(par).SetPrefetchBatchCount(par + Pick("pbatches", 3));
    }
}
// A plan as another process gets it.
std::vector<std::shared_ptr<Split>> Ship(const std::vector<std::shared_ptr<Split>>& in) {
    std::vector<std::shared_ptr<Split>> out;
    for (auto& s : in) {
        auto b = Split::Serialize(s, GetDefaultPool());
        DST_CHECK("C18", "split-not-serialisable", b.ok(), "a split cannot be serialised: %s", b.status().ToString().c_str());
        auto r = Split::Deserialize(b.value().data(), b.value().size(), GetDefaultPool());
        DST_CHECK("C18", "split-does-not-come-back", r.ok(), "a serialised split cannot be read back: %s", r.status().ToString().c_str());
        out.push_back(r.value());
    }
    return out;
}
// Plans and reads once. An error is all right only if this client met a fault; what comes without
// an error has to be one snapshot, whole.
bool ReadCheck(const char* prop, Client* c, std::optional<int64_t> want) {
    int f0 = c->faults;
    int64_t before = W->latest;
    ReadOut o;
    Opts extra;
    if (Pick("planopts", 3) == 1) extra["source.split.target-size"] = "60 b", extra["source.split.open-file-cost"] = "1 b";
    auto splits = PlanOnce(c, want, &o, extra);
    int64_t after = W->latest;
    auto failed = [&](const char* what) {
        if (o.st.ok()) return false;
        DST_CHECK(prop, "read-fails", c->faults > f0 || c->crashed, "%s fails although nothing went wrong: %s", what, o.st.ToString().c_str());
        return true;
    };
    if (failed("planning")) return false;
    int64_t id = o.snapshot;
    {
        Atomic a;
        if (want) DST_CHECK(prop, "other-snapshot", id == *want, "snapshot %lld was asked for, the plan is of %lld", (long long)*want, (long long)id);
        DST_CHECK(prop, "stale-plan", want || (id >= before && id <= after), "the plan is of snapshot %lld; the latest was %lld before and %lld after planning", (long long)id, (long long)before, (long long)after);
        if (id == 0) return splits.empty();
        DST_CHECK(prop, "unknown-snapshot", W->snaps.count(id), "the plan is of snapshot %lld, which was never published", (long long)id);
        if (Pick("ship", 2)) splits = Ship(splits);
    }
    if (Pick("separately", 3) == 1) {
        auto order = splits;
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[Pick("order", i)]);
        for (auto& s : order) {
            Collect({s}, c, &o, Tune);
            if (failed("reading")) return false;
        }
    } else {
        Collect(splits, c, &o, Tune);
        if (failed("reading")) return false;
    }
    Atomic a;
    std::string d = Diff(o.rows, ExpectRows(W->snaps[id]));
    DST_CHECK(prop, "wrong-rows", d.empty(), "snapshot %lld reads as %s", (long long)id, d.c_str());
    dst::Count("snapshots-read");
    return true;
}
void MakeTable() {
    dst::SetPreempt(0, 0);
    Status st = CreateTable(God(), PkColumns());
    if (!st.ok()) dst::HarnessError("create table: %s", st.ToString().c_str());
}
std::vector<std::unique_ptr<Committer>> Users(int n, bool overs) {
    std::vector<std::unique_ptr<Committer>> cs;
    for (int i = 0; i < n; i++) {
        cs.push_back(std::make_unique<Committer>());
        cs[i]->user = "u" + std::to_string(i);
        if (W->pk) cs[i]->bucket = i;
        cs[i]->keep = Pick("keep", 2);
        cs[i]->overwrites = overs && Pick("overs", 3) == 1;
    }
    return cs;
}

// ---------------------------------------------------------------- C13
void RunKeys() {
    NewWorld();
    if (Pick("partitioned", 2)) W->pkeys = {"pt"};
    PkWorld(true);
    God();
    TableOptions();
    MakeTable();
    dst::SwarmPreempt(false);
    DrawFaults(4, true);
    auto cs = Users(W->buckets, false);
    std::vector<std::thread> ts;
    W->busy = cs.size();
    std::vector<int> counts;
    for (auto& c : cs) counts.push_back(1 + Pick("commits", 4)), c->max_rows = 6;
    for (size_t i = 0; i < cs.size(); i++) ts.emplace_back([&, i] {
        cs[i]->Run(counts[i]);
        W->busy--;
    });
    if (Pick("reader", 2))
        ts.emplace_back([&] {
            Client* c = NewClient("reader");
            c->budget = nullptr;
            for (int k = 0; k < 2; k++) {
                for (int y = Pick("wait", 80); y > 0 && W->busy; y--) dst::Yield("reader");
                ReadCheck("C13", c, std::nullopt);
            }
            c->exec.reset();
        });
    for (auto& t : ts) t.join();
    W->budget = 0;
    Client* g = NewClient("verifier");
    g->budget = nullptr;
    std::vector<int64_t> ids;
    for (auto& [id, s] : W->snaps) ids.push_back(id);
    while (ids.size() > 3) ids.erase(ids.begin() + Pick("skipread", ids.size() - 1));
    if (Pick("mem", 3) == 1) dst::SetPreempt(0.2, 0.002);
    for (int64_t id : ids) ReadCheck("C13", g, id);
    g->exec.reset();
    if (W->published > 1) dst::NonTrivial();
}

// ---------------------------------------------------------------- C14
void RunFaultyReads() {
    NewWorld();
    if (Pick("partitioned", 3)) W->pkeys = {"pt"};
    if (Pick("pk", 2)) PkWorld(true);
    God();
    TableOptions();
    MakeTable();
    F = Plan2();
    auto cs = Users(W->pk ? W->buckets : 1, !W->pk);
    for (auto& c : cs) c->Run(1 + Pick("commits", 3));
    dst::SwarmPreempt(false);
    double rates[] = {0.01, 0.03, 0.1, 0.3};
    double p = rates[Pick("rate", 4)];
    uint32_t kinds = 1 + Pick("kinds", 3);
    if (kinds & 1) F.err = p;
    if (kinds & 2) F.shrt = p;
    F.ops = READS;
    if (Pick("ops", 3) == 1) {
        uint32_t one[] = {OPEN, READ, STAT, LIST, EXISTS};
        F.ops = one[Pick("op", 5)];
    }
    uint32_t cl[] = {ALL, SNAP, MANIFEST, DATA, SCHEMA, HINT};
    F.classes = cl[Pick("classes", 6)];
    Client* c = Start("reader");
    int failed = 0;
    for (int k = 0; k < 3; k++) {
        W->budget = 1 + Pick("budget", 4);
        std::optional<int64_t> want;
        if (Pick("which", 3) == 1) want = 1 + Pick("snapshot", W->latest);
        if (!ReadCheck("C14", c, want)) failed++;
        W->budget = 0;
        DST_CHECK("C14", "retry-fails", ReadCheck("C14", c, want), "reading again after the fault fails");
    }
    c->exec.reset();
    if (failed) dst::NonTrivial();
}

// ---------------------------------------------------------------- C18
void RunIsolation() {
    NewWorld();
    if (Pick("partitioned", 3)) W->pkeys = {"pt"};
    if (Pick("pk", 4) == 1) PkWorld(false);
    God();
    TableOptions();
    MakeTable();
    dst::SwarmPreempt(false);
    DrawFaults(3, true);
    auto cs = Users(W->pk ? W->buckets : 1 + Pick("users", 2), !W->pk);
    std::vector<std::thread> ts;
    W->busy = cs.size();
    std::vector<int> counts;
    for (auto& c : cs) counts.push_back(2 + Pick("commits", 4));
    for (size_t i = 0; i < cs.size(); i++) ts.emplace_back([&, i] {
        cs[i]->Run(counts[i]);
        W->busy--;
    });
    int readers = 1 + Pick("readers", 2), good = 0;
    for (int r = 0; r < readers; r++)
        ts.emplace_back([&, r] {
            Client* c = NewClient("reader" + std::to_string(r));
            c->budget = nullptr;
            c->stall = F.stall;
            for (int k = 0; k < 4; k++) {
                for (int y = Pick("wait", 40); y > 0 && W->busy; y--) dst::Yield("reader");
                std::optional<int64_t> want;
                if (W->latest && Pick("which", 4) == 1) want = 1 + Pick("snapshot", W->latest);
                int64_t l = W->latest;
                ReadCheck("C18", c, want);
                if (W->latest > l) good++;
            }
            c->exec.reset();
        });
    for (auto& t : ts) t.join();
    if (good) dst::NonTrivial();
}

// ---------------------------------------------------------------- C42
std::shared_ptr<Predicate> DrawLeaf() {
    int f = Pick("field", 3);
    const char* names[] = {"pt", "id", "v"};
    std::string n = names[f];
    FieldType t = f == 0 ? FieldType::STRING : FieldType::BIGINT;
    auto lit = [&]() -> Literal {
        if (f == 0) {
            const char* v[] = {"a", "b", "c", "", "zz"};
            const char* x = v[Pick("text", 5)];
            return Literal(FieldType::STRING, x, strlen(x));
        }
        return Literal((int64_t)Pick("number", 12) * (Pick("far", 4) == 1 ? 5 : 1) - 2);
    };
    switch (Pick("function", 11)) {
        case 0: return PredicateBuilder::Equal(f, n, t, lit());
        case 1: return PredicateBuilder::NotEqual(f, n, t, lit());
        case 2: return PredicateBuilder::LessThan(f, n, t, lit());
        case 3: return PredicateBuilder::LessOrEqual(f, n, t, lit());
        case 4: return PredicateBuilder::GreaterThan(f, n, t, lit());
        case 5: return PredicateBuilder::GreaterOrEqual(f, n, t, lit());
        case 6: return PredicateBuilder::IsNull(f, n, t);
        case 7: return PredicateBuilder::IsNotNull(f, n, t);
        case 8:
        case 9: {
            std::vector<Literal> l;
            for (int k = 1 + Pick("literals", 3); k > 0; k--) l.push_back(lit());
            return Pick("in", 2) ? PredicateBuilder::In(f, n, t, l) : PredicateBuilder::NotIn(f, n, t, l);
        }
        default: return PredicateBuilder::Between(f, n, t, lit(), lit());
    }
}
std::shared_ptr<Predicate> DrawPredicate(int depth) {
    if (depth == 0 || Pick("leaf", 3) == 1) return DrawLeaf();
    std::vector<std::shared_ptr<Predicate>> k;
    for (int n = 2 + Pick("children", 2); n > 0; n--) k.push_back(DrawPredicate(depth - 1));
    auto r = Pick("or", 2) ? PredicateBuilder::Or(k) : PredicateBuilder::And(k);
    if (!r.ok()) dst::HarnessError("predicate: %s", r.status().ToString().c_str());
    return r.value();
}
bool Matches(const Predicate& p, const Row& r) {
    auto t = Holds(p, [&](const std::string& n) -> std::optional<Val> {
        Val v;
        v.null = false;
        if (n == "pt")
            v.text = true, v.s = r.pt;
        else if (n == "id")
            v.n = r.id;
        else if (r.v == NUL)
            v.null = true;
        else
            v.n = r.v;
        return v;
    });
    return *t;
}
// Plans and reads with a filter. What is read and satisfies the filter is what satisfies it in the
// snapshot; a reader told to filter returns nothing else.
void FilterCheck(Client* c, std::optional<int64_t> want) {
    auto pred = DrawPredicate(2);
    std::vector<std::map<std::string, std::string>> parts;
    if (!W->pkeys.empty() && Pick("parts", 4) == 1)
        for (int k = 1 + Pick("nparts", 2); k > 0; k--) parts.push_back({{"pt", PTS[Pick("pt", 3)]}});
    std::optional<int> bucket;
    if (W->pk && W->buckets > 0 && Pick("bucketfilter", 4) == 1) bucket = Pick("bucket", W->buckets);
    // A limit only says how many rows are enough; it is for scans without a filter.
    int limit = Pick("limited", 6) == 1 ? 1 + Pick("limit", 8) : 0;
    bool plan_filter = !limit && Pick("planfilter", 4), read_filter = !limit && Pick("readfilter", 4), exact = read_filter && Pick("exact", 2);
    dst::Log("%s filters by %s%s%s", c->name.c_str(), pred->ToString().c_str(), plan_filter ? ", planning" : "", exact ? ", reading exactly" : read_filter ? ", reading" : "");
    int f0 = c->faults;
    ReadOut o;
    Opts extra;
    if (Pick("planopts", 3) == 1) extra["source.split.target-size"] = "60 b", extra["source.split.open-file-cost"] = "1 b";
    auto splits = PlanOnce(c, want, &o, extra, [&](ScanContextBuilder& b) {
        if (plan_filter) b.SetPredicate(pred);
        if (!parts.empty()) b.SetPartitionFilter(parts);
        if (bucket) b.SetBucketFilter(*bucket);
        if (limit) b.SetLimit(limit);
    });
    auto failed = [&](const char* what) {
        if (o.st.ok()) return false;
        DST_CHECK(At({"C42", "C43", "C44"}), "read-fails", c->faults > f0 || c->crashed, "%s with the filter %s fails although nothing went wrong: %s", what, pred->ToString().c_str(), o.st.ToString().c_str());
        return true;
    };
    if (failed("planning") || o.snapshot == 0) return;
    {
        Atomic a;
        if (Pick("ship", 2)) splits = Ship(splits);
    }
    Collect(splits, c, &o, [&](ReadContextBuilder& b) {
        Tune(b);
        if (read_filter) b.SetPredicate(pred).EnablePredicateFilter(exact);
    });
    if (failed("reading")) return;
    Atomic a;
    auto wanted = [&](const Row& r) {
        if (!parts.empty()) {
            bool any = false;
            for (auto& p : parts) any |= p.at("pt") == r.pt;
            if (!any) return false;
        }
        if (bucket && r.id % W->buckets != *bucket) return false;
        return limit || Matches(*pred, r);
    };
    std::vector<Row> got, exp;
    for (auto& r : o.rows)
        if (exact || limit || Matches(*pred, r)) got.push_back(r);
    for (auto& r : ExpectRows(W->snaps[o.snapshot]))
        if (wanted(r)) exp.push_back(r);
    if (limit) {
        std::sort(got.begin(), got.end());
        std::sort(exp.begin(), exp.end());
        DST_CHECK(At({"C42", "C43", "C44"}), "limit-wrong", std::includes(exp.begin(), exp.end(), got.begin(), got.end()) && got.size() >= std::min<size_t>(limit, exp.size()), "with a limit of %d rows snapshot %lld returns %d rows, it has %d%s", limit, (long long)o.snapshot,
                  (int)got.size(), (int)exp.size(), std::includes(exp.begin(), exp.end(), got.begin(), got.end()) ? "" : " and not all of those returned");
        dst::Count("limited-reads");
        return;
    }
    std::string d = Diff(got, exp);
    DST_CHECK(At({"C42", "C43", "C44"}), "wrong-rows", d.empty(), "snapshot %lld filtered by %s: %s", (long long)o.snapshot, pred->ToString().c_str(), d.c_str());
    if (!exp.empty() && exp.size() < ExpectRows(W->snaps[o.snapshot]).size()) dst::Count("selective-reads");
}
void RunFilters() {
    NewWorld();
    W->dense = true;
    if (Pick("partitioned", 3)) W->pkeys = {"pt"};
    if (Pick("pk", 2) == 1) PkWorld(true);
    God();
    TableOptions();
    MakeTable();
    dst::SwarmPreempt(false);
    DrawFaults(3, true);
    auto cs = Users(W->pk ? W->buckets : 1 + Pick("users", 2), !W->pk);
    std::vector<std::thread> ts;
    W->busy = cs.size();
    std::vector<int> counts;
    for (auto& c : cs) counts.push_back(2 + Pick("commits", 4)), c->max_rows = 6;
    for (size_t i = 0; i < cs.size(); i++) ts.emplace_back([&, i] {
        cs[i]->Run(counts[i]);
        W->busy--;
    });
    ts.emplace_back([&] {
        Client* c = NewClient("reader");
        c->budget = nullptr;
        for (int k = 0; k < 3; k++) {
            for (int y = Pick("wait", 60); y > 0 && W->busy; y--) dst::Yield("reader");
            FilterCheck(c, std::nullopt);
        }
        c->exec.reset();
    });
    for (auto& t : ts) t.join();
    W->budget = 0;
    Client* g = NewClient("verifier");
    g->budget = nullptr;
    for (int k = 0; k < 6 && W->latest; k++) {
        std::optional<int64_t> want;
        if (Pick("which", 2)) want = 1 + Pick("snapshot", W->latest);
        FilterCheck(g, want);
    }
    g->exec.reset();
    if (W->published > 1) dst::NonTrivial();
}

// ---------------------------------------------------------------- C43
// Reads some columns of some rows, with their ids.
void EvolutionCheck(Client* c, std::optional<int64_t> want) {
    std::vector<std::string> cols;
    for (const char* n : {"pt", "id", "v", "_ROW_ID", "_SEQUENCE_NUMBER"})
        if (Pick("column", 3)) cols.push_back(n);
    bool ids = std::find(cols.begin(), cols.end(), "_ROW_ID") != cols.end();
    if (!ids) cols.insert(cols.begin() + Pick("at", cols.size() + 1), "_ROW_ID");
    for (size_t i = cols.size() - 1; i > 0 && Pick("shuffle", 2); i--) std::swap(cols[i], cols[Pick("with", i + 1)]);
    std::optional<std::set<int64_t>> chosen;
    std::vector<Range> ranges;
    if (Pick("selection", 2)) {
        chosen.emplace();
        int64_t top = W->next_row_id + 3;
        for (int k = Pick("ranges", 4); k > 0; k--) {
            int64_t from = Pick("from", top), to = std::min<int64_t>(top, from + Pick("length", 6));
            ranges.push_back(Range(from, to));
            for (int64_t i = from; i <= to; i++) chosen->insert(i);
        }
    }
    std::string what;
    for (auto& x : cols) what += (what.empty() ? "" : ",") + x;
    for (auto& r : ranges) what += " [" + std::to_string(r.from) + "," + std::to_string(r.to) + "]";
    dst::Log("%s reads %s", c->name.c_str(), what.c_str());
    int f0 = c->faults;
    ReadOut o;
    Opts extra;
    if (Pick("planopts", 3) == 1) extra["source.split.target-size"] = "60 b", extra["source.split.open-file-cost"] = "1 b";
    auto splits = PlanOnce(c, want, &o, extra, [&](ScanContextBuilder& b) {
        if (chosen) b.SetGlobalIndexResult(BitmapGlobalIndexResult::FromRanges(ranges));
    });
    auto failed = [&](const char* step) {
        if (o.st.ok()) return false;
        DST_CHECK("C43", "read-fails", c->faults > f0 || c->crashed, "%s of %s fails although nothing went wrong: %s", step, what.c_str(), o.st.ToString().c_str());
        return true;
    };
    if (failed("planning") || o.snapshot == 0) return;
    std::map<int64_t, std::pair<Row, int64_t>> got;
    Collect(
        splits, c, &o,
        [&](ReadContextBuilder& b) {
            Tune(b);
            b.SetReadSchema(cols);
        },
        [&](const std::shared_ptr<arrow::StructArray>& sa) {
            auto rows = TableRows(sa);
            auto id = Col<arrow::Int64Array>(sa, "_ROW_ID");
            for (int64_t i = 0; i < sa->length(); i++) {
                int64_t seq = Has(sa, "_SEQUENCE_NUMBER") ? Col<arrow::Int64Array>(sa, "_SEQUENCE_NUMBER")->Value(i) : -1;
                DST_CHECK("C43", "row-twice", !id->IsNull(i) && got.emplace(id->Value(i), std::make_pair(rows[i], seq)).second, "reading %s of snapshot %lld returns row %lld twice", what.c_str(), (long long)o.snapshot, (long long)id->Value(i));
            }
        });
    if (failed("reading")) return;
    Atomic a;
    auto has = [&](const char* n) { return std::find(cols.begin(), cols.end(), n) != cols.end(); };
    for (auto& [id, e] : W->evo[o.snapshot]) {
        if (chosen && !chosen->count(id)) continue;
        auto it = got.find(id);
        DST_CHECK("C43", "row-missing", it != got.end(), "reading %s of snapshot %lld does not return row %lld", what.c_str(), (long long)o.snapshot, (long long)id);
        Row w{has("pt") ? e.row.pt : "", has("id") ? e.row.id : NUL, has("v") ? e.row.v : NUL};
        DST_CHECK("C43", "wrong-value", it->second.first == w, "reading %s of snapshot %lld returns row %lld as %s, it is %s", what.c_str(), (long long)o.snapshot, (long long)id, Str(it->second.first).c_str(), Str(w).c_str());
        DST_CHECK("C43", "wrong-sequence-number", !has("_SEQUENCE_NUMBER") || it->second.second == e.seq, "row %lld of snapshot %lld was last written in snapshot %lld, its sequence number is %lld", (long long)id, (long long)o.snapshot, (long long)e.seq,
                  (long long)it->second.second);
        got.erase(it);
    }
    DST_CHECK("C43", "row-not-asked-for", got.empty(), "reading %s of snapshot %lld returns row %lld, which was not asked for", what.c_str(), (long long)o.snapshot, (long long)got.begin()->first);
    dst::Count(chosen ? "reads-by-row-id" : "column-reads");
}
void RunEvolution() {
    NewWorld();
    W->dense = Pick("dense", 2);
    W->tracking = W->evolve = true;
    if (Pick("partitioned", 2)) W->pkeys = {"pt"};
    int filter = P() == "C44" ? 6 : 3;  // filtered reads in ten
    if (P() == "C44") {
        int k = Pick("indexed", 3);
        if (k != 0) W->indexed.insert("id");
        if (k != 1) W->indexed.insert("v");
        W->dense = true;
    }
    God();
    TableOptions();
    MakeTable();
    dst::SwarmPreempt(false);
    DrawFaults(3, true);
    auto cs = Users(1 + Pick("users", 3), false);
    std::vector<std::thread> ts;
    W->busy = cs.size();
    std::vector<int> counts;
    for (auto& c : cs) counts.push_back(2 + Pick("commits", 5)), c->max_rows = 5;
    for (size_t i = 0; i < cs.size(); i++) ts.emplace_back([&, i] {
        cs[i]->Run(counts[i]);
        W->busy--;
    });
    ts.emplace_back([&] {
        Client* c = NewClient("reader");
        c->budget = nullptr;
        if (Pick("slow", 2)) c->stall = 10;
        for (int k = 0; k < 8 && (k < 3 || W->busy); k++) {
            for (int y = Pick("wait", 60); y > 0 && W->busy; y--) dst::Yield("reader");
            if (Pick("filter", 10) < filter)
                FilterCheck(c, std::nullopt);
            else
                EvolutionCheck(c, std::nullopt);
        }
        c->exec.reset();
    });
    for (auto& t : ts) t.join();
    W->budget = 0;
    Client* g = NewClient("verifier");
    g->budget = nullptr;
    for (int k = 0; k < 6 && W->latest; k++) {
        std::optional<int64_t> want;
        if (Pick("which", 2)) want = 1 + Pick("snapshot", W->latest);
        if (Pick("filter", 10) < filter)
            FilterCheck(g, want);
        else
            EvolutionCheck(g, want);
    }
    g->exec.reset();
    if (W->published > 1) dst::NonTrivial();
}

// ---------------------------------------------------------------- C17
void RunStream() {
    NewWorld();
    if (Pick("partitioned", 3)) W->pkeys = {"pt"};
    God();
    TableOptions();
    bool expire = Pick("expire", 3) == 1;
    if (expire) {
        ExpireOptions();
        W->retain_ms = std::min<int64_t>(W->retain_ms, 50);
        W->topts["snapshot.time-retained"] = std::to_string(W->retain_ms) + " ms";
    }
    MakeTable();
    F = Plan2();
    auto cs = Users(1 + Pick("users", 2), true);
    for (auto& c : cs) c->spared = true;
    if (Pick("early", 2)) cs[0]->Run(1 + Pick("before", 3));
    dst::SwarmPreempt(false);
    if (Pick("stalls", 4) == 1) F.stall = 5;
    std::vector<int> counts;
    for (auto& c : cs) counts.push_back(1 + Pick("commits", 5));
    std::vector<std::thread> ts;
    W->busy = cs.size();
    for (size_t i = 0; i < cs.size(); i++) ts.emplace_back([&, i] {
        cs[i]->Run(counts[i]);
        W->busy--;
    });
    bool expiring = false;
    if (expire)
        ts.emplace_back([&] {
            Client* c = NewClient("expirer");
            c->budget = nullptr;
            for (int k = 0; k < 4 && W->busy; k++) {
                int seen = W->published;
                dst::WaitUntil("expirer", [&] { return W->published > seen || !W->busy; });
                expiring = true;
                ExpireOnce(c);
                expiring = false;
            }
            c->exec.reset();
        });
    int delivered = 0, resumed = 0, errors = 0;
    bool lost = false;  // the next snapshot is gone: the scan is over
    auto exists = [](int64_t id) { return S->nodes.count(TABLE + "/snapshot/snapshot-" + std::to_string(id)) > 0; };
    auto follow = [&] {
        if (Pick("faulty", 3)) {
            double rates[] = {0.005, 0.02, 0.1};
            F.err = rates[Pick("rate", 3)];
            if (Pick("shorts", 2)) F.shrt = F.err;
            F.ops = READS;
            W->budget = 1 + Pick("budget", 8);
        }
        Client* c = Start("follower");
        std::unique_ptr<TableScan> scan;
        // The next snapshot to come is between lo and hi; -1 while nothing is known.
        int64_t lo = -1, hi = -1, from = -1;
        int64_t first_before = 0, first_early = 0;
        bool full = false, fresh = true, resume = false, tried = false;
        std::string mode;
        int idle = 0;
        for (int round = 0; round < 400; round++) {
            if (!scan) {
                Opts o = ClientOpts(c);
                if (!resume) {
                    const char* modes[] = {"latest-full", "latest", "from-snapshot", "from-snapshot-full"};
                    mode = modes[Pick("mode", W->latest ? 4 : 2)];
                    from = W->latest ? 1 + Pick("from", W->latest) : -1;
                } else {
                    mode = "from-snapshot";
                    from = lo;
                }
                o["scan.mode"] = mode;
                if (mode == "from-snapshot" || mode == "from-snapshot-full") o["scan.snapshot-id"] = std::to_string(from);
                int f0 = c->faults;
                ScanContextBuilder sb(TABLE);
                auto ctx = sb.SetOptions(o).WithExecutor(Exec(c)).WithStreamingMode(true).Finish();
                if (!ctx.ok()) dst::HarnessError("scan context: %s", ctx.status().ToString().c_str());
                auto sc = TableScan::Create(std::move(ctx).value());
                if (!sc.ok()) {
                    DST_CHECK("C17", "scan-fails", c->faults > f0, "a streaming scan cannot be made although nothing went wrong: %s", sc.status().ToString().c_str());
                    continue;
                }
                scan = std::move(sc).value();
                fresh = true, tried = false;
                full = mode == "latest-full" || mode == "from-snapshot-full";
                if (!resume) lo = hi = -1;
            }
            bool was_busy = W->busy > 0 || expiring;
            int64_t before = W->latest, early = EarliestFile();
            int f0 = c->faults;
            bool gone_before = !fresh && lo == hi && lo > 0 && lo <= before && !exists(lo) && W->snaps[lo].kind == "APPEND";
            if (!tried) {
                // A failed first attempt may have settled where to start.
                tried = true;
                first_before = before, first_early = early;
            }
            if (fresh) before = first_before, early = first_early;
            auto plan = scan->CreatePlan();
            std::unique_lock<std::mutex> none;
            int64_t after = W->latest, earlier = EarliestFile();
            bool faulted = c->faults > f0;
            if (!plan.ok()) {
                dst::Log("plan -> %s", plan.status().ToString().c_str());
                errors++;
                if (faulted) continue;
                Atomic a;
                // only an expired snapshot excuses it
                bool excuse = false;
                if (!fresh) {
                    for (int64_t i = lo; i <= hi; i++) excuse = excuse || (i <= after && !exists(i)) || W->snaps[i].gone;
                } else {
                    excuse = expire;  // what it started from went away meanwhile
                }
                DST_CHECK("C17", "plan-fails", excuse, "planning the next snapshot (%lld) fails although nothing went wrong: %s", (long long)lo, plan.status().ToString().c_str());
                lost = true;
                break;
            }
            auto id = plan.value()->SnapshotId();
            if (fresh) {
                // where does it start?
                Atomic a;
                if (full) {
                    if (!id) {
                        DST_CHECK("C17", "nothing-delivered", before == 0, "the first plan is empty although snapshot %lld exists", (long long)before);
                        DST_CHECK("C17", "stuck", was_busy || after == 0 || idle++ < 3, "the first plan stays empty although snapshot %lld exists", (long long)after);
                    } else {
                        int64_t a1 = mode == "latest-full" ? before : std::max(from, early), a2 = mode == "latest-full" ? after : std::max(from, earlier);
                        if (mode == "latest-full" && before == 0) a1 = 1;
                        DST_CHECK("C17", "starts-wrong", *id >= a1 && *id <= a2, "a %s scan starts with snapshot %lld, expected one in [%lld, %lld]", mode.c_str(), (long long)*id, (long long)a1, (long long)a2);
                    }
                } else {
                    // A table that was empty at first may have been seen to have snapshots since.
                    DST_CHECK("C17", "starts-wrong", !id || lo > 0, "a %s scan delivers snapshot %lld in its first plan", mode.c_str(), (long long)id.value_or(0));
                    if (id) {
                        fresh = false;
                    } else if (after > 0) {
                        int64_t n1, n2;
                        if (mode == "latest")
                            n1 = before ? before + 1 : 1, n2 = after + 1;
                        else
                            n1 = std::max(from, early), n2 = std::max(from, earlier);
                        if (before == 0 && mode == "latest") {
                            // seen empty or not
                            if (lo < 0) lo = 1;
                        } else if (lo < 0 || mode != "latest") {
                            lo = n1;
                        }
                        hi = std::max(n2, lo);
                        if (before > 0) fresh = false;
                    } else {
                        lo = hi = 1;
                    }
                    if (!id) continue;
                }
            }
            if (!id) {
                Atomic a;
                if (!fresh && !faulted && lo == hi && lo > 0) {
                    bool due = false;
                    for (auto& [i, s] : W->snaps) due = due || (i >= lo && i <= before && s.kind == "APPEND");
                    DST_CHECK("C17", "expired-not-reported", !gone_before, "snapshot %lld is next and expired, the scan reports no error", (long long)lo);
                    DST_CHECK("C17", "nothing-delivered", !due, "the plan is empty although snapshot %lld and later ones up to %lld exist", (long long)lo, (long long)before);
                }
                // done?
                if (!was_busy) {
                    bool due = false;
                    for (auto& [i, s] : W->snaps) due = due || (i >= lo && s.kind == "APPEND" && lo == hi);
                    DST_CHECK("C17", "stuck", !due || idle++ < 10, "the scan stays at snapshot %lld, the latest is %lld", (long long)lo, (long long)W->latest);
                    if (!due) break;
                }
                for (int y = Pick("wait", 20); y > 0; y--) dst::Yield("follow");
                continue;
            }
            idle = 0;
            if (!fresh) {
                Atomic a;
                bool ok = false;
                for (int64_t n = lo; n <= hi && !ok; n++) {
                    int64_t first = n;
                    while (W->snaps.count(first) && W->snaps[first].kind != "APPEND") first++;
                    ok = first == *id;
                }
                DST_CHECK("C17", "out-of-order", ok, "the scan delivers snapshot %lld, expected is the one from [%lld, %lld]", (long long)*id, (long long)lo, (long long)hi);
            }
            // its rows
            Snap& s = W->snaps[*id];
            std::vector<Row> want;
            {
                Atomic a;
                if (fresh)
                    want = ExpectRows(s);
                else
                    for (auto& [f, rows] : s.rec->files) want.insert(want.end(), rows.begin(), rows.end());
            }
            auto splits = plan.value()->Splits();
            if (Pick("ship", 3) == 1) {
                Atomic a;
                splits = Ship(splits);
            }
            for (int t = 0;; t++) {
                ReadOut o;
                int f1 = c->faults;
                Collect(splits, c, &o, Tune);
                Atomic a;
                if (!o.st.ok()) {
                    DST_CHECK("C17", "read-fails", c->faults > f1 || s.gone, "reading snapshot %lld fails although nothing went wrong: %s", (long long)*id, o.st.ToString().c_str());
                    if (s.gone) break;
                    if (t > 20) dst::HarnessError("faults do not end");
                    continue;
                }
                std::string d = Diff(o.rows, want);
                DST_CHECK("C17", "wrong-rows", d.empty(), "the %s plan of snapshot %lld reads as %s", fresh ? "first" : "delta", (long long)*id, d.c_str());
                break;
            }
            delivered++;
            fresh = false;
            lo = hi = *id + 1;
            if (Pick("resume", 6) == 1) {
                resume = true;
                resumed++;
                scan.reset();
            }
        }
        // dropped and made again
        if (scan && !lost && !fresh && lo == hi && lo > 1 && Pick("recreate", 2)) {
            W->budget = 0;
            dst::WaitUntil("quiet", [&] { return !W->busy && !expiring; });
            {
                Atomic a;
                for (auto it = S->nodes.begin(); it != S->nodes.end();) it = Has(it->first, "/t/snapshot/") ? S->nodes.erase(it) : std::next(it);
                dst::Fault("table-recreated");
            }
            auto plan = scan->CreatePlan();
            DST_CHECK("C17", "recreation-unnoticed", !plan.ok(), "the table was recreated, snapshot %lld is expected next, and the scan reports no error", (long long)lo);
        }
        c->exec.reset();
    };
    ts.emplace_back(follow);
    for (auto& t : ts) t.join();
    if (delivered > 1) dst::NonTrivial();
}

// ---------------------------------------------------------------- C07
// One cleaning run.
bool CleanOnce(Client* c, int64_t older, const std::set<std::string>& retain, bool racing, std::set<std::string>* reported) {
    c->doing = "clean";
    {
        Atomic a;
        W->cleaning[c->id] = Cleaning{older, {}, retain};
    }
    int f0 = c->faults;
    CleanContextBuilder b(TABLE);
    b.SetOptions(ClientOpts(c)).WithExecutor(Exec(c)).WithOlderThanMs(older);
    if (!retain.empty()) b.WithFileRetainCondition([&retain](const std::string& n) { return retain.count(n) > 0; });
    auto ctx = b.Finish();
    if (!ctx.ok()) dst::HarnessError("clean context: %s", ctx.status().ToString().c_str());
    Status st;
    {
        auto cl = OrphanFilesCleaner::Create(std::move(ctx).value());
        st = cl.status();
        if (cl.ok()) {
            auto r = cl.value()->Clean();
            st = r.status();
            if (r.ok()) *reported = r.value();
        }
    }
    dst::Log("clean -> %s", st.ToString().c_str());
    dst::Count(st.ok() ? "cleanings" : "failed-cleanings");
    if (!st.ok() && c->faults == f0 && !c->crashed && !racing) {
        bool tag = false;
        for (auto& [p, n] : S->nodes) tag = tag || Has(p, "/t/tag/") || Has(p, "/t/branch/");
        DST_CHECK("C07", "clean-fails", tag, "cleaning fails although nothing went wrong: %s", st.ToString().c_str());
    }
    return st.ok();
}
void RunClean() {
    NewWorld();
    if (Pick("partitioned", 3)) W->pkeys = {"pt"};
    God();
    TableOptions();
    bool expire = Pick("expire", 3) == 1;
    if (expire) ExpireOptions();
    MakeTable();
    // a past, with accidents
    DrawFaults(6, true);
    if (F.err == 0 && F.crash == 0 && Pick("accidents", 2)) {
        F.crash = 0.05;
        W->budget = 4;
        F.ops = WRITES, F.classes = ALL;
    }
    auto cs = Users(1 + Pick("users", 2), true);
    for (auto& c : cs) c->Run(1 + Pick("commits", 3));
    // other things in the table's directories
    auto put = [](const std::string& path, const std::string& data) {
        Atomic a;
        MakeDirs(Parent(path));
        Node n;
        n.data = data, n.mtime = StoreMs(), n.gen = ++S->gens;
        S->nodes[path] = n;
    };
    std::string bucket = TABLE + (W->pkeys.empty() ? "" : "/pt=a") + "/bucket-0/";
    const char* junk[] = {"data-left.orc", "data-left.parquet", "data-left.txt", "changes-1.orc", "notes", "xdata-1.orc", ".data.tmp", "data-left.orc.crc", ".hidden", "notes.tmp"};
    for (int k = Pick("junk", 4); k > 0; k--) put(bucket + junk[Pick("which", 10)], "x");
    const char* mjunk[] = {"manifest-left", "manifest-list-left", "index-manifest-left", ".manifest.tmp", "readme", ".marker"};
    for (int k = Pick("mjunk", 3); k > 0; k--) put(TABLE + "/manifest/" + mjunk[Pick("which", 6)], "x");
    if (Pick("sjunk", 3) == 1) put(TABLE + "/snapshot/.snapshot-9.left.tmp", "x");
    // a tag keeps an otherwise removed snapshot alive
    bool tagged = false;
    if (Pick("tag", 4) == 1 && W->latest > 1) {
        Atomic a;
        int64_t e = EarliestFile();
        if (e && e < W->latest) {
            std::string from = TABLE + "/snapshot/snapshot-" + std::to_string(e), to = TABLE + (Pick("branch", 3) == 1 ? "/branch/branch-b/snapshot/snapshot-1" : "/tag/tag-1");
            MakeDirs(Parent(to));
            S->nodes[to] = S->nodes[from];
            S->nodes.erase(from);
            S->nodes.erase(TABLE + "/snapshot/EARLIEST");
            W->snaps[e].refs.erase(from);
            tagged = true;
        }
    }
    dst::AdvanceUs(7200ll * 1000000);
    dst::SwarmPreempt(false);
    DrawFaults(4, true);
    if (Pick("readfaults", 2) && (F.err > 0)) F.ops = READS;
    if (Pick("listfaults", 3) == 1) {
        double rates[] = {0.02, 0.1, 0.4};
        F = Plan2();
        F.err = rates[Pick("rate", 3)], F.ops = EXISTS | LIST, F.classes = ALL;
        W->budget = 1 + Pick("budget", 4);
    }
    std::vector<std::thread> ts;
    int n = Pick("busy", 3);
    std::vector<std::unique_ptr<Committer>> more;
    std::vector<int> counts;
    W->busy = n;
    for (int i = 0; i < n; i++) {
        more.push_back(std::make_unique<Committer>());
        more[i]->user = "n" + std::to_string(i);
        more[i]->overwrites = Pick("overs", 3) == 1;
        counts.push_back(1 + Pick("commits", 3));
    }
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
        more[i]->Run(counts[i]);
        W->busy--;
    });
    if (expire && n)
        ts.emplace_back([&] {
            Client* c = Start("expirer");
            for (int k = 0; k < 3 && W->busy; k++) {
                int seen = W->published;
                dst::WaitUntil("expirer", [&] { return W->published > seen || !W->busy; });
                ExpireOnce(c);
                if (c->crashed) break;
            }
            c->exec.reset();
        });
    ts.emplace_back([&] {
        for (int k = 1 + Pick("cleanings", 3); k > 0; k--) {
            Client* c = Start("cleaner");
            for (int y = Pick("wait", 60); y > 0; y--) dst::Yield("cleaner");
            int64_t age = std::vector<int64_t>{600000, 3600000, 86400000}[Pick("age", 3)];
            std::set<std::string> rep;
            CleanOnce(c, StoreMs() - age, {}, expire && n, &rep);
            c->exec.reset();
        }
    });
    for (auto& t : ts) t.join();
    // quiet: complete and exact
    W->budget = 0;
    Client* g = NewClient("admin");
    g->budget = nullptr;
    if (Pick("later", 2)) dst::AdvanceUs(7200ll * 1000000);
    int64_t older = StoreMs() - std::vector<int64_t>{0, 1000, 3600000, 86400000}[Pick("age", 4)] + (int64_t)Pick("edge", 2);
    std::set<std::string> retain, live, due, rep;
    {
        Atomic a;
        for (auto& [id, s] : W->snaps)
            if (!s.gone || S->nodes.count(TABLE + "/snapshot/snapshot-" + std::to_string(id))) {
                live.insert(s.refs.begin(), s.refs.end());
                live.insert(s.named.begin(), s.named.end());
            }
        for (auto& [p, nd] : S->nodes) {
            if (nd.dir || !Recognised(Base(p)) || live.count(p) || nd.mtime >= older) continue;
            Cls k = ClassOf(p);
            if (k != SNAP && k != MANIFEST && k != DATA) continue;
            if (Has(p, "/branch/")) continue;
            if (Pick("retain", 8) == 1) retain.insert(Base(p));
            due.insert(p);
        }
        for (auto it = due.begin(); it != due.end();) it = retain.count(Base(*it)) ? due.erase(it) : std::next(it);
    }
    bool ok = CleanOnce(g, older, retain, false, &rep);
    {
        Atomic a;
        if (tagged) DST_CHECK("C07", "tag-ignored", !ok, "cleaning succeeds on a table with a tag or branch, which it does not look into");
        if (ok) {
            for (auto& p : due) DST_CHECK("C07", "orphan-left", !S->nodes.count(p), "%s, an orphan older than the limit, is left", p.c_str());
            std::set<std::string> norm;
            for (auto& p : rep) norm.insert(Norm(p));
            DST_CHECK("C07", "report-wrong", norm == W->cleaning[g->id].deleted, "cleaning reports %d files, it deleted %d", (int)norm.size(), (int)W->cleaning[g->id].deleted.size());
            if (!due.empty()) dst::NonTrivial();
        }
    }
    g->doing = "";
    if (!tagged) VerifyReads(2);
    g->exec.reset();
}

// ---------------------------------------------------------------- C09
void RunCreate() {
    NewWorld();
    W->topts["file-system"] = "simfs";
    W->topts["sim.client"] = "0";
    W->topts["bucket"] = "-1";
    God();
    dst::SwarmPreempt(false);
    DrawFaults(4, true);
    if (Pick("schemaonly", 2)) F.classes = SCHEMA;
    int n = 1 + Pick("clients", 4);
    struct Try {
        Status st;
        bool ignore, crashed = false, persistent = false;
        int faults = 0;
    };
    std::vector<Try> tries;
    std::mutex mu;
    std::vector<std::thread> ts;
    dst::OnLivelock([](const std::string& w) { dst::Violate("C09", "never-returns", "creating a table does not come to an end: %s", w.c_str()); });
    S->on_publish = [](Client*, const std::string& p) {
        if (Base(p).compare(0, 7, "schema-") != 0) return;
        auto& nd = S->nodes[p];
        DST_CHECK("C09", "schema-incomplete", !nd.open && !nd.data.empty() && nd.data.back() == '}', "%s becomes visible with incomplete contents", p.c_str());
    };
    int unlimited = 1 << 30;
    {
        // the database first
        Client* c = NewClient("god2");
        c->budget = nullptr;
        auto cat = Catalog::Create(ROOT, ClientOpts(c));
        if (!cat.ok()) dst::HarnessError("catalog");
        if (Pick("db", 2) && !cat.value()->CreateDatabase("db", {}, true).ok()) dst::HarnessError("db");
    }
    for (int i = 0; i < n; i++) {
        int calls = 1 + Pick("calls", 2);
        bool persistent = Pick("persistent", 5) == 1;
        uint32_t bad[] = {RENAME, CREATE, CLOSE, WRITE, FLUSH, CREATE | RENAME | WRITE};
        uint32_t badop = bad[Pick("badop", 6)];
        ts.emplace_back([&, i, calls, persistent, badop] {
            for (int k = 0; k < calls; k++) {
                Client* c = Start("c" + std::to_string(i) + "." + std::to_string(k));
                if (persistent) {
                    c->p_err = 1, c->p_doubt = c->p_crash = c->p_short = 0;
                    c->ops = badop, c->classes = SCHEMA;
                    c->budget = &unlimited;
                }
                Try t;
                t.ignore = Pick("ignore", 3) == 1;
                t.persistent = persistent;
                auto cat = Catalog::Create(ROOT, ClientOpts(c));
                if (!cat.ok()) {
                    DST_CHECK("C09", "catalog-fails", c->faults, "creating a catalog fails: %s", cat.status().ToString().c_str());
                    continue;
                }
                Status d = cat.value()->CreateDatabase("db", {}, true);
                if (!d.ok()) {
                    DST_CHECK("C09", "database-fails", c->faults || c->crashed, "creating a database that may exist fails: %s", d.ToString().c_str());
                    continue;
                }
                Opts o = W->topts;
                o["owner"] = c->name;
                ::ArrowSchema cs;
                if (!arrow::ExportSchema(*TableSchemaOf(), &cs).ok()) dst::HarnessError("export schema");
                t.st = cat.value()->CreateTable(Identifier("db", "t"), &cs, {}, {}, o, t.ignore);
                if (cs.release) cs.release(&cs);
                Atomic a;
                t.crashed = c->crashed, t.faults = c->faults;
                dst::Log("%s create -> %s", c->name.c_str(), t.st.ToString().c_str());
                if (t.st.ok() && !t.ignore && !c->crashed) {
                    // the table is there, and ours
                    auto it = S->nodes.find(TABLE + "/schema/schema-0");
                    DST_CHECK("C09", "created-not-there", it != S->nodes.end(), "%s created the table, but it has no schema", c->name.c_str());
                    DST_CHECK("C09", "two-winners", Has(it->second.data, ("\"" + c->name + "\"").c_str()), "%s is told it created the table, but its schema is another one", c->name.c_str());
                }
                if (!t.st.ok() && !c->crashed && !c->faults) DST_CHECK("C09", "fails-without-cause", Has(t.st.ToString(), "exist"), "creating the table fails although nothing went wrong: %s", t.st.ToString().c_str());
                tries.push_back(t);
            }
        });
    }
    // somebody looks all the time
    bool looking = true;
    if (Pick("looker", 2))
        ts.emplace_back([&] {
            Client* c = NewClient("looker");
            c->budget = nullptr;
            auto cat = Catalog::Create(ROOT, ClientOpts(c));
            if (!cat.ok()) dst::HarnessError("catalog");
            for (int k = 0; k < 5; k++) {
                for (int y = Pick("wait", 20); y > 0; y--) dst::Yield("looker");
                bool seen = S->nodes.count(TABLE + "/schema/schema-0");
                auto l = cat.value()->LoadTableSchema(Identifier("db", "t"));
                if (!l.ok()) DST_CHECK("C09", "schema-unreadable", !seen && l.status().IsNotExist(), "the table's schema cannot be read: %s", l.status().ToString().c_str());
            }
        });
    for (auto& t : ts) t.join();
    (void)looking;
    W->budget = 0;
    unlimited = 0;
    Client* g = NewClient("admin");
    g->budget = nullptr;
    auto cat = Catalog::Create(ROOT, ClientOpts(g));
    if (!cat.ok()) dst::HarnessError("catalog");
    int winners = 0, faults = 0;
    for (auto& t : tries) winners += t.st.ok() && !t.ignore && !t.crashed, faults += t.faults;
    bool there = S->nodes.count(TABLE + "/schema/schema-0");
    auto db = cat.value()->CreateDatabase("db", {}, true);
    auto tables = cat.value()->ListTables("db");
    DST_CHECK("C09", "listing-fails", tables.ok(), "listing tables fails: %s", tables.status().ToString().c_str());
    bool listed = std::find(tables.value().begin(), tables.value().end(), "t") != tables.value().end();
    DST_CHECK("C09", "listing-wrong", listed == there, "the table is %s but %s", there ? "there" : "not there", listed ? "listed" : "not listed");
    auto l = cat.value()->LoadTableSchema(Identifier("db", "t"));
    DST_CHECK("C09", "schema-unreadable", l.ok() == there, "loading the schema: %s", l.status().ToString().c_str());
    DST_CHECK("C09", "two-winners", winners <= 1, "%d clients were told they created the table", winners);
    if (!faults && !tries.empty()) DST_CHECK("C09", "no-winner", there, "nobody created the table although nothing went wrong");
    if (!there) {
        Opts o = W->topts;
        ::ArrowSchema cs;
        if (!arrow::ExportSchema(*TableSchemaOf(), &cs).ok()) dst::HarnessError("export schema");
        Status st = cat.value()->CreateTable(Identifier("db", "t"), &cs, {}, {}, o, false);
        if (cs.release) cs.release(&cs);
        DST_CHECK("C09", "cannot-create-later", st.ok(), "the table cannot be created after the failed attempts: %s", st.ToString().c_str());
    }
    if (tries.size() > 1) dst::NonTrivial();
}

// ---------------------------------------------------------------- C12
void RunWriter() {
    NewWorld();
    if (Pick("partitioned", 2)) W->pkeys = {"pt"};
    uint32_t kind = Pick("pk", 5);
    bool merged = kind == 1 || kind == 2, postponed = kind == 3;
    if (merged || postponed) PkWorld(false);
    God();
    TableOptions();
    if (postponed) W->topts["bucket"] = "-2", W->bucketed = false;
    if (Pick("small", 2)) W->topts["target-file-size"] = "60 b";
    MakeTable();
    dst::SwarmPreempt(false);
    DrawFaults(3, true);
    F.crash = 0;
    if (Pick("dataonly", 3)) F.classes = DATA;
    if (Pick("nodelete", 2)) F.ops &= ~DELETE;
    Client* c = Start("writer");
    Committer me;  // for committing what was prepared
    me.user = "u0";
    me.spared = true;
    me.Restart();
    std::unique_ptr<FileStoreWrite> w;
    std::vector<std::pair<Row, bool>> open, maybe;  // accepted and not handed out; of failed writes
    std::set<std::string> handed, excused;
    bool prepare_failed = false;
    int64_t commit_id = 1, handed_rows = 0;
    auto closed = [&] {
        // everything not handed out is gone
        Atomic a;
        for (auto& [p, nd] : S->nodes)
            if (!nd.dir && ClassOf(p) == DATA && (prepare_failed || S->undeleted.count(p))) excused.insert(p);
        for (auto& [p, nd] : S->nodes)
            if (!nd.dir && ClassOf(p) == DATA && !excused.count(p)) DST_CHECK("C12", "file-left-behind", handed.count(Base(p)), "%s was not handed out and is left behind by a closed writer", p.c_str());
    };
    int rounds = 2 + Pick("rounds", 6);
    for (int r = 0; r < rounds; r++) {
        c->doing = "write";
        if (Pick("disk", 12) == 1) S->full = !S->full;
        Status st;
        if (!w) {
            w = MakeWriter(c, "u0", {}, &st);
            open.clear(), maybe.clear();
            prepare_failed = false;
            if (!w) {
                DST_CHECK("C12", "fails-without-cause", c->faults, "a writer cannot be created: %s", st.ToString().c_str());
                continue;
            }
        }
        for (int b = Pick("batches", 4); b > 0; b--) {
            std::vector<Row> rows;
            std::string pt = PTS[Pick("pt", 3)];
            int bucket = W->pk ? Pick("bucket", W->buckets) : -1;
            for (int n = 1 + Pick("rows", 5); n > 0; n--) {
                Row x{W->pkeys.empty() ? PTS[Pick("pt", 3)] : pt, W->next_row, W->next_row * 7};
                W->next_row++;
                if (W->pk) x.id = bucket + W->buckets * (int64_t)Pick("key", 6);
                rows.push_back(x);
            }
            std::vector<RecordBatch::RowKind> kinds;
            if (W->pk && Pick("kinds", 2))
                for (size_t i = 0; i < rows.size(); i++) kinds.push_back(Pick("del", 3) == 1 ? RecordBatch::RowKind::DELETE : RecordBatch::RowKind::INSERT);
            int f0 = c->faults;
            st = w->Write(MakeBatch(rows, bucket, kinds));
            dst::Log("write %d rows -> %s", (int)rows.size(), st.ToString().c_str());
            DST_CHECK("C12", "fails-without-cause", st.ok() || c->faults, "a write fails although nothing went wrong: %s", st.ToString().c_str());
            (void)f0;
            auto& to = st.ok() ? open : maybe;
            for (size_t i = 0; i < rows.size(); i++) to.push_back({rows[i], !kinds.empty() && kinds[i] == RecordBatch::RowKind::DELETE});
            if (!st.ok()) dst::Count("failed-writes");
            if (!st.ok() && Pick("giveup", 2)) break;
        }
        if (Pick("prepare", 4)) {
            auto m = w->PrepareCommit(false, commit_id);
            Atomic a;
            dst::Log("prepare -> %s", m.status().ToString().c_str());
            if (!m.ok()) {
                DST_CHECK("C12", "fails-without-cause", c->faults, "preparing a commit fails although nothing went wrong: %s", m.status().ToString().c_str());
                prepare_failed = true;
                dst::Count("failed-prepares");
            } else {
                std::vector<Row> got, acc, may;
                std::map<std::pair<std::string, int64_t>, std::pair<int64_t, std::pair<Row, int>>> last;  // key -> sequence, row, kind
                CommitRec rec;
                for (auto& f : MsgFiles(m.value())) {
                    auto rows = RowsOf(DataPath(f));
                    DST_CHECK("C12", "message-names-incomplete-file", rows != nullptr, "the commit messages name %s, which is not a complete file", f.c_str());
                    DST_CHECK("C12", "file-handed-out-twice", handed.insert(f).second, "the commit messages name %s, which was handed out before", f.c_str());
                    auto tr = TableRows(*rows);
                    rec.files[f] = tr;
                    got.insert(got.end(), tr.begin(), tr.end());
                    if (merged) {
                        size_t at = 0;
                        for (auto& ch : rows->chunks) {
                            auto seq = Col<arrow::Int64Array>(ch, "_SEQUENCE_NUMBER");
                            auto kind = Col<arrow::Int8Array>(ch, "_VALUE_KIND");
                            for (int64_t i = 0; i < ch->length(); i++, at++) {
                                std::pair<std::string, int64_t> k{W->pkeys.empty() ? "" : tr[at].pt, tr[at].id};
                                auto it = last.find(k);
                                DST_CHECK("C12", "sequence-number-reused", it == last.end() || it->second.first != seq->Value(i), "two versions of key %lld have sequence number %lld", (long long)tr[at].id, (long long)seq->Value(i));
                                if (it == last.end() || it->second.first < seq->Value(i)) last[k] = {seq->Value(i), {tr[at], kind->Value(i)}};
                            }
                        }
                    }
                }
                std::sort(got.begin(), got.end());
                for (size_t i = 1; !merged && i < got.size(); i++) DST_CHECK("C12", "row-twice", !(got[i] == got[i - 1]), "the commit messages hold row %s twice", Str(got[i]).c_str());
                std::set<Row> have(got.begin(), got.end()), known;
                if (merged) {
                    Keys k, all;
                    for (auto& [x, d] : open) Merge(&k, x, d);
                    for (auto& [key, v] : k) {
                        auto it = last.find(key);
                        DST_CHECK("C12", "row-missing", it != last.end(), "key %lld was accepted and is not in the commit messages", (long long)key.second);
                        if (maybe.empty())
                            DST_CHECK("C12", "wrong-version", it->second.second.first == v.row && (it->second.second.second == 3) == v.del, "key %lld is handed out as %s kind %d, last written was %s%s", (long long)key.second, Str(it->second.second.first).c_str(),
                                      it->second.second.second, Str(v.row).c_str(), v.del ? " (delete)" : "");
                    }
                } else {
                    for (auto& [x, d] : open) DST_CHECK("C12", "row-missing", have.count(x), "row %s was accepted and is not in the commit messages", Str(x).c_str());
                }
                for (auto& [x, d] : open) known.insert(x);
                for (auto& [x, d] : maybe) known.insert(x);
                for (auto& x : have) DST_CHECK("C12", "row-from-nowhere", known.count(x), "the commit messages hold row %s, which was handed out before or never written", Str(x).c_str());
                handed_rows += got.size();
                // commit it, so that the writer finds it committed
                me.next_id = commit_id;
                me.pending.clear();
                std::vector<std::pair<Row, bool>> ops = open;
                if (maybe.empty() && !open.empty() && !postponed) {
                    std::vector<Row> rows;
                    for (auto& [x, d] : open) rows.push_back(x);
                    me.Record(m.value(), rows, ops);
                } else {
                    me.next_id++;
                }
                open.clear(), maybe.clear();
            }
            if (m.ok()) commit_id++;
        }
        if (!me.pending.empty() && Pick("commit", 3)) {
            bool full = S->full;
            S->full = false;
            me.Finish(true);
            S->full = full;
        }
        me.pending.clear();
        if (Pick("close", 4) == 1) {
            st = w->Close();
            w.reset();
            if (st.ok()) closed();
        }
    }
    if (w) {
        Status st = w->Close();
        w.reset();
        if (st.ok()) closed();
    }
    me.w.reset();
    me.c->exec.reset();
    c->exec.reset();
    if (handed_rows > 0) dst::NonTrivial();
}
