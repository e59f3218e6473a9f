// C30: threads using separate objects, also for the first time, or separate sessions of a server do not affect each other
#define RPC_WORLD_OF_THREAD
#include "rpc_model.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_json_wsp_description.hpp"
#include <barrier>
#include <thread>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
using namespace Bomba;

namespace {
const FillLimits limits{30, 2, 4};
constexpr int depth = 3;
using BinaryServer = BinaryProtocolServer<uint16_t, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, depth>;
using BinaryClient = BinaryProtocolClient<uint16_t, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, depth>;

// Seen by the process that watches
struct Outcome {
	int64_t local, json, binary, forms, described, objects, trees, switches, checks;
	bool violated;
	char key[100], detail[4000];
};

struct NoGet : IHttpGetResponder { bool get(std::string_view, IWriteStarter&) override { return false; } };
struct Servers {
	Rpc::Tree tree;
	JsonRpcServer<> json;
	BinaryServer binary;
	HtmlPostResponder<> post;
	NoGet get;
	HttpServer<> forms;
	std::vector<size_t> all, formable;
	Servers(uint64_t seed) : tree(seed, depth), json(*tree.root), binary(*tree.root), post(*tree.root), forms(get, post) {
		for (size_t i = 0; i < tree.leaves.size(); i++) {
			all.push_back(i);
			bool ok = true;
			Rpc::withProcedure(tree.leaves[i].id, [&] <typename P> () { ok = Rpc::formable<P>(); });
			for (auto& name : tree.leaves[i].path) for (unsigned char c : name) if (c <= ' ' || c > 126) ok = false; // The path is a part of the URL
			if (ok) formable.push_back(i);
		}
	}
};

void callThrough(H& h, Rpc::Tree& client, Rpc::Tree& server, const std::vector<size_t>& usable, int64_t& counter) {
	Rpc::World& w = *Rpc::world;
	w.calls.clear();
	w.retSeed = h.rng.next();
	std::vector<Rpc::Pending> pending;
	bool async = h.rng.chance(50);
	for (int64_t i = async ? h.rng.range(1, 3) : 1; i > 0; i--) {
		size_t leaf = h.rng.pick(usable);
		Rpc::withProcedure(client.leaves[leaf].id, [&] <typename P> () {
			pending.push_back(Rpc::startCall<P>(h, *static_cast<typename P::Object*>(client.leaves[leaf].object), server.leaves[leaf].object, async, limits));
		});
	}
	for (auto& p : pending) p.take();
	h.check(w.calls.size() == pending.size(), "execution-count", [&] { return std::to_string(w.calls.size()) + " executions of " + std::to_string(pending.size()) + " calls by this thread"; });
	for (size_t i = 0; i < pending.size(); i++) {
		pending[i].verifyExecution(h, w.calls[i]);
		pending[i].verifyResult(h, i);
	}
	counter += int64_t(pending.size());
}
void useObjects(H& h, int64_t& counter) {
	ZScalars made, read;
	fill(h.rng, made, limits);
	std::string text = made.serialise<BasicJson<>>();
	h.check(read.deserialise<BasicJson<>>(text), "not-read", [&] { return text; });
	h.check(same(made, read), "read-differently", [&] { return text; });
	ZScalars copy = read, other;
	std::string bytes = copy.serialise<BinaryFormat<>>();
	other.deserialise<BinaryFormat<>>(bytes);
	h.check(same(other, made), "read-differently", [&] { return text; });
	counter++;
}
void callLocally(H& h, Rpc::Tree& tree, int64_t& counter) {
	Rpc::World& w = *Rpc::world;
	w.calls.clear();
	w.retSeed = h.rng.next();
	auto& leaf = h.rng.pick(tree.leaves);
	Rpc::withProcedure(leaf.id, [&] <typename P> () {
		auto pending = Rpc::startCall<P>(h, *static_cast<typename P::Object*>(leaf.object), leaf.object, h.rng.chance(50), limits, true);
		pending.take();
		h.check(w.calls.size() == 1, "execution-count");
		pending.verifyExecution(h, w.calls[0]);
		pending.verifyResult(h, 0);
	});
	counter++;
}
std::string describe(Rpc::Tree& tree) { return describeInJsonWsp<std::string>(*tree.root, "api.example.com", "api"); }

void child(H& h, Outcome& out) {
	int threads = int(h.rng.range(2, 5));
	std::vector<uint64_t> seeds;
	for (int64_t i = h.rng.range(1, 3); i > 0; i--) seeds.push_back(h.rng.next());
	uint64_t sharedSeed = h.rng.pick(seeds);
	std::optional<Servers> shared;
	if (h.rng.chance(60)) shared.emplace(sharedSeed);
	int rounds = int(h.rng.range(1, h.thorough ? 30 : 10));
	std::barrier start(threads);
	std::vector<Outcome> outcomes(static_cast<size_t>(threads));
	std::vector<std::map<uint64_t, std::string>> descriptions(static_cast<size_t>(threads));
	std::vector<uint64_t> rngs;
	for (int i = 0; i < threads; i++) rngs.push_back(h.rng.next());
	std::atomic<int> last = -1;
	auto work = [&] (int index) {
		Outcome& mine = outcomes[size_t(index)];
		mine = {};
		H own;
		own.rng = Rng(rngs[size_t(index)]);
		Rpc::World world;
		Rpc::world = &world;
		try {
			start.arrive_and_wait();
			for (int round = 0; round < rounds; round++) {
				if (last.exchange(index, std::memory_order_relaxed) != index) mine.switches++; // Does not order anything
				int what = int(own.rng.below(6));
				uint64_t seed = own.rng.pick(seeds);
				if (what == 0) useObjects(own, mine.objects);
				else if (what == 1) {
					Rpc::Tree tree(seed, depth);
					mine.trees++;
					for (int i = 0; i < 3; i++) callLocally(own, tree, mine.local);
				} else if (what == 2) {
					std::string described;
					if (shared && own.rng.chance(50)) {
						seed = sharedSeed;
						described = describe(shared->tree);
					} else {
						Rpc::Tree tree(seed, depth);
						described = describe(tree);
					}
					auto& known = descriptions[size_t(index)][seed];
					own.check(known.empty() || known == described, "described-differently", [&] { return known + "\n" + described; });
					known = described;
					mine.described++;
				} else {
					std::optional<Servers> separate;
					if (!shared || own.rng.chance(20)) separate.emplace(seed);
					Servers& servers = separate ? *separate : *shared;
					Rpc::Tree client(separate ? seed : sharedSeed, depth);
					int protocol = int(own.rng.below(servers.formable.empty() ? 2 : 3));
					if (protocol == 2) {
						Rpc::MemoryConnection connection(own, servers.forms.getSession());
						HttpClient<> http(connection, "example.com");
						client.root->setResponder(http);
						for (int i = 0; i < 2; i++) callThrough(own, client, servers.tree, servers.formable, mine.forms);
					} else if (protocol == 1) {
						Rpc::MemoryConnection connection(own, servers.json.getSession());
						JsonRpcClient<> rpc(*client.root, connection, "example.com");
						for (int i = 0; i < 2; i++) callThrough(own, client, servers.tree, servers.all, mine.json);
					} else {
						Rpc::MemoryConnection connection(own, servers.binary.getSession());
						BinaryClient rpc(*client.root, connection);
						for (int i = 0; i < 2; i++) callThrough(own, client, servers.tree, servers.all, mine.binary);
					}
				}
			}
		} catch (ViolationFound& v) {
			mine.violated = true;
			snprintf(mine.key, sizeof(mine.key), "%s", v.key.c_str());
			snprintf(mine.detail, sizeof(mine.detail), "%s", v.detail.c_str());
		} catch (std::exception& e) {
			mine.violated = true;
			snprintf(mine.key, sizeof(mine.key), "exception");
			snprintf(mine.detail, sizeof(mine.detail), "%s", e.what());
		}
		mine.checks = own.counters["oracle_checks"];
		Rpc::world = nullptr;
	};
	std::vector<std::thread> running;
	for (int i = 0; i < threads; i++) running.emplace_back(work, i);
	for (auto& t : running) t.join();
	out = {};
	for (auto& o : outcomes) {
		out.local += o.local; out.json += o.json; out.binary += o.binary; out.forms += o.forms; out.described += o.described; out.objects += o.objects; out.trees += o.trees; out.switches += o.switches; out.checks += o.checks;
		if (o.violated && !out.violated) { out.violated = true; memcpy(out.key, o.key, sizeof(o.key)); memcpy(out.detail, o.detail, sizeof(o.detail)); }
	}
	std::map<uint64_t, std::string> known;
	for (auto& d : descriptions) for (auto& [seed, text] : d) {
		auto [found, added] = known.emplace(seed, text);
		if (!added && found->second != text && !out.violated) {
			out.violated = true;
			snprintf(out.key, sizeof(out.key), "described-differently");
			snprintf(out.detail, sizeof(out.detail), "%.1900s\nand\n%.1900s", found->second.c_str(), text.c_str());
		}
	}
}
}

// Whatever is initialised at the first use is initialised again in every case, a new process runs it
void runCase(H& h) {
	static Outcome* outcome = static_cast<Outcome*>(mmap(nullptr, sizeof(Outcome), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (outcome == MAP_FAILED) throw std::runtime_error("harness: no shared memory");
	memset(static_cast<void*>(outcome), 0, sizeof(Outcome));
	int output[2];
	if (pipe(output)) throw std::runtime_error("harness: no pipe");
	pid_t pid = fork();
	if (pid < 0) throw std::runtime_error("harness: no process");
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(output[0]);
		dup2(output[1], 2);
		child(h, *outcome);
		_exit(0);
	}
	close(output[1]);
	std::string text;
	char buffer[4096];
	while (true) {
		ssize_t n = read(output[0], buffer, sizeof(buffer));
		if (n < 0 && errno == EINTR) continue;
		if (n <= 0) break;
		if (text.size() < 6000) text.append(buffer, size_t(n));
	}
	close(output[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	h.check(!(WIFEXITED(status) && WEXITSTATUS(status) == 66), "data-race", [&] { return text; });
	h.check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "crashed", [&] { return "status " + std::to_string(status) + "\n" + text; });
	if (outcome->violated) h.fail(outcome->key, outcome->detail);
	h.count("calls_local", outcome->local);
	h.count("calls_json", outcome->json);
	h.count("calls_binary", outcome->binary);
	h.count("calls_forms", outcome->forms);
	h.count("descriptions", outcome->described);
	h.count("objects", outcome->objects);
	h.count("trees", outcome->trees);
	h.count("thread_switches", outcome->switches);
	h.count("oracle_checks", outcome->checks);
	h.maximum("switches_in_case", outcome->switches);
	h.sign(std::to_string(h.rng.s) + " " + std::to_string(outcome->local) + " " + std::to_string(outcome->json) + " " + std::to_string(outcome->binary) + " " + std::to_string(outcome->switches));
	h.sample(std::to_string(outcome->local) + " local calls, " + std::to_string(outcome->json) + " by JSON-RPC, " + std::to_string(outcome->binary) + " by the binary protocol, " + std::to_string(outcome->described) + " descriptions, "
			+ std::to_string(outcome->trees) + " trees, " + std::to_string(outcome->switches) + " switches between threads");
}
