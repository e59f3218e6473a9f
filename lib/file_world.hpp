// A scratch folder with a served folder, files around it that must stay secret, and pages registered by a program
#ifndef VERIF_FILE_WORLD
#define VERIF_FILE_WORLD
#include "http_model.hpp"
#include "bomba_download_server.hpp"
#include <filesystem>
#include <fstream>
#include <sys/stat.h>

namespace Files {
namespace fs = std::filesystem;

// The library prints about every file it doesn't have
struct Quiet {
	std::ostream sink{nullptr};
	std::streambuf* old;
	Quiet() : old(std::cout.rdbuf(nullptr)) {}
	~Quiet() { std::cout.rdbuf(old); }
};

inline std::string scratch(H& h) {
	const char* work = getenv("VERIF_WORK");
	std::string r = std::string(work ? work : "/tmp") + "/files-" + std::to_string(getpid());
	return r;
}
inline void write(const fs::path& path, std::string_view contents) {
	fs::create_directories(path.parent_path());
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f.write(contents.data(), std::streamsize(contents.size()));
	f.close();
	if (!f) throw std::runtime_error("cannot write " + path.string());
}

// Takes what a responder writes
struct Taker : Bomba::IWriteStarter {
	int started = 0;
	std::string type, body;
	int64_t declared = -1;
	std::function<void()> beforeBody;
	void take(std::string_view t, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) {
		started++;
		type = t;
		if (beforeBody) beforeBody();
		Bomba::ExpandingBuffer<> buffer;
		filler(buffer);
		body = std::string_view(buffer);
	}
	void writeUnknownSize(std::string_view t, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) override { take(t, filler); }
	void writeKnownSize(std::string_view t, int64_t size, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> filler) override { declared = size; take(t, filler); }
};
}
#endif
