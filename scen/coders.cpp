// Coders and bit streams on failing storage.
#include "quiet_logger.hpp"

#include "fly/coders/base64/base64_coder.hpp"
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <sstream>

using namespace sim;

namespace {

struct Settings : fly::coders::CoderConfig
{
    Settings(std::uint16_t chunk_kb, std::uint8_t length)
    {
        m_default_huffman_encoder_chunk_size_kb = chunk_kb;
        m_default_huffman_encoder_max_code_length = length;
    }
};

struct Prng
{
    std::uint64_t s;
    explicit Prng(std::uint64_t seed) : s(seed * 2 + 1) {}
    std::uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545f4914f6cdd1dULL >> 11;
    }
    std::uint64_t below(std::uint64_t n) { return next() % n; }
};

char const *const content_names[] = {"one symbol", "random", "skewed", "fibonacci", "text", "every byte", "few symbols", "almost too many symbols"};

std::string make_content(int kind, std::size_t size, std::uint64_t seed)
{
    Ignore ig;
    Prng g(seed);
    std::string s;
    s.reserve(size + 1);
    switch (kind)
    {
        case 0: s.assign(size, static_cast<char>(g.below(256))); break;
        case 1:
            while (s.size() < size) s.push_back(static_cast<char>(g.below(256)));
            break;
        case 2:
            while (s.size() < size)
            {
                unsigned v = 0;
                while (v < 60 && g.below(100) < 60) ++v;
                s.push_back(static_cast<char>(v * 37 + 11));
            }
            break;
        case 3:
        {
            // symbol frequencies like this make the deepest possible tree
            std::size_t a = 1, b = 1;
            for (unsigned sym = 0; s.size() < size; ++sym)
            {
                std::size_t const n = std::min(a, size - s.size());
                s.append(n, static_cast<char>(sym * 7 + 1));
                std::size_t const c = a + b;
                a = b;
                b = c;
            }
            for (std::size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[g.below(i)]);
            break;
        }
        case 4:
            while (s.size() < size)
            {
                for (std::uint64_t k = g.below(9) + 1; k > 0; --k) s.push_back(static_cast<char>('a' + g.below(8)));
                s.push_back(g.below(8) ? ' ' : '\n');
            }
            s.resize(size);
            break;
        case 5:
            while (s.size() < size) s.push_back(static_cast<char>(s.size() & 255));
            break;
        case 7:
        {
            // around as many symbols as there are codes of some length
            std::uint64_t const n = std::max<std::uint64_t>(1, (1u << (seed % 16) % 9) + g.below(3) - 1);
            for (std::uint64_t i = 0; s.size() < size; ++i) s.push_back(static_cast<char>((i < n ? i : g.below(g.below(n) + 1)) * 5 + 3));
            break;
        }
        default:
        {
            std::uint64_t const n = 2 + g.below(5);
            while (s.size() < size) s.push_back(static_cast<char>(g.below(n) * 51));
            break;
        }
    }
    return s;
}

std::string const dir = "r/coders/";

void put_file(std::string const &path, std::string const &text)
{
    sim_fs_exempt_begin();
    int const fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ::write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size())) sim_fail("sim:workload", "cannot write %s", path.c_str());
    ::close(fd);
    sim_fs_exempt_end();
}

bool get_file(std::string const &path, std::string &text)
{
    sim_fs_exempt_begin();
    int const fd = ::open(path.c_str(), O_RDONLY);
    bool const ok = fd >= 0;
    if (ok)
    {
        struct stat st;
        ::fstat(fd, &st);
        text.assign(static_cast<std::size_t>(st.st_size), '\0');
        if (::read(fd, text.data(), text.size()) != st.st_size) sim_fail("sim:workload", "cannot read %s", path.c_str());
        ::close(fd);
    }
    sim_fs_exempt_end();
    return ok;
}

// Strict RFC 4648 decoding, independent of the library.
bool base64_reference(std::string const &text, std::string &out)
{
    Ignore ig;
    static char const alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    out.clear();
    if (text.size() % 4) return false;
    for (std::size_t i = 0; i < text.size(); i += 4)
    {
        unsigned v = 0, pad = 0;
        for (unsigned k = 0; k < 4; ++k)
        {
            char const c = text[i + k];
            char const *p = c ? std::strchr(alphabet, c) : nullptr;
            if (c == '=' && i + 4 == text.size() && k >= 2)
            {
                ++pad;
                v <<= 6;
            }
            else if (p && !pad) v = v << 6 | static_cast<unsigned>(p - alphabet);
            else return false;
        }
        out.push_back(static_cast<char>(v >> 16));
        if (pad < 2) out.push_back(static_cast<char>(v >> 8 & 255));
        if (pad < 1) out.push_back(static_cast<char>(v & 255));
    }
    return true;
}

// Decoder of the Huffman file format, independent of the library: a marked bit stream of version, chunk size and length limit, then for each
// chunk the number of codes of each length, their symbols in canonical order, and the coded bytes.
bool huffman_reference(std::string const &text, std::string &out)
{
    Ignore ig;
    out.clear();
    if (text.empty()) return false;
    unsigned const header = static_cast<unsigned char>(text[0]);
    if (header >> 3 != 0x1a) return false;
    std::size_t const end = text.size() == 1 ? 0 : (text.size() - 1) * 8 - (header & 7);
    std::size_t at = 0;
    auto take = [&](unsigned n, unsigned &value) {
        if (end - at < n) return false;
        value = 0;
        for (; n > 0; --n, ++at) value = value << 1 | (static_cast<unsigned char>(text[1 + at / 8]) >> (7 - at % 8) & 1);
        return true;
    };
    unsigned version, kb, limit;
    if (!take(8, version) || version != 1 || !take(16, kb) || kb == 0 || !take(8, limit) || limit == 0 || limit > 15) return false;
    while (at < end)
    {
        unsigned lengths;
        if (!take(8, lengths) || lengths == 0 || lengths > limit + 1) return false;
        unsigned counts[16], first[16] = {}, base[16] = {}, symbols[256], n = 0, code = 0;
        for (unsigned l = 0; l < lengths; ++l)
            if (!take(16, counts[l])) return false;
        if (counts[0] != 0) return false;
        for (unsigned l = 1; l < lengths; ++l)
        {
            code <<= 1;
            first[l] = code;
            base[l] = n;
            for (unsigned i = 0; i < counts[l]; ++i)
                if (n == 256 || code++ >= 1u << l || !take(8, symbols[n++])) return false;
        }
        for (std::size_t bytes = 0; bytes < kb * 1024ul && at < end; ++bytes)
        {
            unsigned c = 0, l = 0, bit;
            for (;;)
            {
                if (++l >= lengths || !take(1, bit)) return false;
                c = c << 1 | bit;
                if (c >= first[l] && c - first[l] < counts[l]) break;
            }
            out.push_back(static_cast<char>(symbols[base[l] + c - first[l]]));
        }
    }
    return true;
}

// A file with a made-up code table, at or just beyond the limits of the format.
std::string make_table(std::uint64_t seed)
{
    Ignore ig;
    Prng g(seed);
    std::string bits;
    auto put = [&](unsigned value, unsigned n) {
        while (n-- > 0) bits.push_back(static_cast<char>(value >> n & 1));
    };
    unsigned const limit = g.below(4) ? 1 + static_cast<unsigned>(g.below(15)) : 13 + static_cast<unsigned>(g.below(4));
    put(1, 8);
    put(1, 16);
    put(limit, 8);
    for (std::uint64_t chunk = g.below(2) + 1; chunk > 0; --chunk)
    {
        unsigned const lengths = g.below(3) ? limit + 1 : static_cast<unsigned>(g.below(limit + 3));
        put(lengths, 8);
        std::vector<unsigned> counts(lengths);
        unsigned long left = 1; // codes of this length that are still free
        unsigned n = 0;
        unsigned const many = g.below(2) ? 255 + static_cast<unsigned>(g.below(3)) : 1 + static_cast<unsigned>(g.below(256));
        for (unsigned l = 1; l < lengths; ++l)
        {
            left *= 2;
            unsigned long c = l + 1 == lengths ? std::min<unsigned long>(many - std::min(n, many), left) : left > 1 && g.below(3) == 0 ? g.below(std::min<unsigned long>(left, 40)) : 0;
            if (g.below(12) == 0) c = left + g.below(2);
            c = std::min<unsigned long>(c, 300);
            counts[l] = static_cast<unsigned>(c);
            left -= std::min(left, c);
            n += static_cast<unsigned>(c);
        }
        if (lengths && g.below(20) == 0) counts[0] = 1;
        for (unsigned c : counts) put(c, 16);
        for (unsigned c : counts)
            for (; c > 0; --c) put(static_cast<unsigned>(g.below(256)), 8);
        for (std::uint64_t k = g.below(3000); k > 0; --k) put(static_cast<unsigned>(g.below(2) & g.below(2)), 1);
    }
    std::string text(1, static_cast<char>(0x1a << 3 | ((8 - bits.size() % 8) % 8)));
    for (std::size_t i = 0; i < bits.size(); i += 8)
    {
        unsigned v = 0;
        for (std::size_t k = i; k < i + 8; ++k) v = v << 1 | (k < bits.size() ? static_cast<unsigned>(bits[k]) : 0u);
        text.push_back(static_cast<char>(v));
    }
    return text;
}

std::size_t plan_size(bool huffman, unsigned chunk_kb)
{
    std::size_t const kb = 1024;
    switch (R(0, 9))
    {
        case 0: return R(0, 3);
        case 1:
        case 2:
        case 3: return R(1, 600);
        case 4: return R(8185, 8200);
        case 5: return R(600, 12000);
        case 6:
            if (huffman && chunk_kb > 0 && chunk_kb <= 4) return chunk_kb * kb * R(1, 3) + R(0, 2) - 1;
            return R(1, 5) * 4095 + R(0, 2);
        case 7:
            if (!huffman && coin(8)) return 192 * kb * R(1, 2) + R(0, 4) - 2;
            return R(1, 5000);
        default: return R(1, 4000);
    }
}

int hard_faults()
{
    return sim_fault_count(SF_READ_EIO) + sim_fault_count(SF_OPEN_FAIL) + sim_fault_count(SF_WRITE_ENOSPC) + sim_fault_count(SF_WRITE_SHORT) + sim_fault_count(SF_WRITE_EIO) +
        sim_fault_count(SF_CLOSE_FAIL);
}

struct Coder
{
    bool huffman;
    std::unique_ptr<fly::coders::Encoder> encoder;
    std::unique_ptr<fly::coders::Decoder> decoder;
    Coder(bool h, std::uint16_t chunk_kb, std::uint8_t length) : huffman(h)
    {
        if (h)
        {
            encoder = std::make_unique<fly::coders::HuffmanEncoder>(std::make_shared<Settings>(chunk_kb, length));
            decoder = std::make_unique<fly::coders::HuffmanDecoder>();
        }
        else
        {
            encoder = std::make_unique<fly::coders::Base64Coder>();
            decoder = std::make_unique<fly::coders::Base64Coder>();
        }
    }
    // what the encoded bytes stand for
    bool decode(std::string const &encoded, std::string &decoded)
    {
        return huffman ? huffman_reference(encoded, decoded) : base64_reference(encoded, decoded);
    }
};

template <typename F>
bool guarded(char const *what, F &&f)
{
    try
    {
        return f();
    }
    catch (std::exception const &e)
    {
        Ignore ig;
        sim_fail("oracle:exception", "%s threw %s", what, e.what());
    }
}

struct Job
{
    bool encode = true;
    int medium = 0; // 0: file, 1: file over a longer one, 2: string, 3: missing input, 4: output below a missing directory, 5: a device
    int vanish = 0; // 1: the input, 2: the output is moved away meanwhile
    int when = 0;
    std::uint16_t chunk = 1; // of a file to be decoded
    std::uint8_t length = 15;
    int kind = 0;
    std::size_t size = 0;
    std::uint64_t seed = 0;
};

void run_coder_files()
{
    quiet_default_logger();
    sim_time_budget(900 * sec);
    static char const *const media[] = {"file", "file over an existing one", "string", "missing file", "file to a missing directory", "file to a device"};
    static char const *const vanishing[] = {"", ", the input being moved away", ", the output being moved away"};
    int const nthreads = static_cast<int>(sim_param("threads", 1, 2));
    bool const odd = coin(12);
    struct Plan
    {
        bool huffman;
        std::uint16_t chunk;
        std::uint8_t length;
        std::vector<Job> jobs;
    };
    std::vector<Plan> plans;
    for (int t = 0; t < nthreads; ++t)
    {
        Plan p;
        p.huffman = sim_param("huffman", 0, 2) != 0;
        static std::uint16_t const chunks[] = {1, 1, 2, 4, 8, 256};
        p.chunk = odd && coin(40) ? static_cast<std::uint16_t>(0) : chunks[R(0, 5)];
        p.length = odd && coin(70) ? static_cast<std::uint8_t>(R(0, 18)) : static_cast<std::uint8_t>(R(8, 15));
        for (std::uint64_t k = R(1, 4); k > 0; --k)
        {
            Job j;
            j.encode = coin(60);
            j.medium = coin(75) ? 0 : static_cast<int>(R(1, 5));
            if (j.medium == 0 && coin(15)) j.vanish = static_cast<int>(R(1, 2)), j.when = static_cast<int>(R(0, coin(50) ? 20 : 300));
            j.kind = static_cast<int>(R(0, 7));
            j.size = plan_size(p.huffman, p.chunk);
            j.seed = R(0, 1u << 30);
            if (coin(70)) j.chunk = chunks[R(0, 5)], j.length = static_cast<std::uint8_t>(j.kind == 0 && coin(50) ? R(1, 15) : R(8, 15));
            if (j.kind == 7 && p.length < 9 && coin(80)) j.seed = j.seed * 16 + p.length;
            if (sim_op("thread %d: %s %s %s: %zu bytes of %s (chunk %u kb, length %u)%s", t, p.huffman ? "Huffman" : "Base64", j.encode ? "encode" : "decode", media[j.medium], j.size, content_names[j.kind], p.chunk, p.length, vanishing[j.vanish]))
                p.jobs.push_back(j);
        }
        plans.push_back(std::move(p));
    }
    if (coin(30)) sim_fault_rate(SF_READ_EIO, static_cast<int>(R(200, 3000)));
    if (coin(40)) sim_fault_rate(SF_READ_SHORT, static_cast<int>(R(500, 6000)));
    if (coin(30)) sim_fault_rate(SF_EINTR, static_cast<int>(R(300, 3000)));
    if (coin(10)) sim_fault_rate(SF_OPEN_FAIL, static_cast<int>(R(300, 3000)));
    if (coin(30)) sim_fault_rate(SF_WRITE_ENOSPC, static_cast<int>(R(200, 4000)));
    if (coin(30)) sim_fault_rate(SF_WRITE_SHORT, static_cast<int>(R(200, 4000)));
    if (coin(20)) sim_fault_rate(SF_WRITE_EIO, static_cast<int>(R(200, 4000)));
    if (coin(20)) sim_fault_rate(SF_CLOSE_FAIL, static_cast<int>(R(200, 4000)));
    sim_fs_prefix("r/coders/");
    ::mkdir("r/coders", 0700);
    sim_faults_enable(1);

    Threads threads;
    for (int t = 0; t < nthreads; ++t)
        threads.start([&, t]() {
            Plan &p = plans[static_cast<std::size_t>(t)];
            Coder coder(p.huffman, p.chunk, p.length);  // used again and again
            bool const usable = !p.huffman || (p.chunk != 0 && p.length >= 8 && p.length <= 15);
            int n = 0;
            for (Job const &j : p.jobs)
            {
                std::string const input = make_content(j.kind, j.size, j.seed);
                std::string const in = dir + "in" + std::to_string(t) + "_" + std::to_string(n), out = dir + "out" + std::to_string(t) + "_" + std::to_string(n++);
                std::string source = input; // the bytes that are read
                if (!j.encode)
                {
                    Coder other(p.huffman, j.chunk, j.length); // whatever encoded it had settings of its own
                    sim_fs_exempt_begin();
                    bool const ok = guarded("encoding", [&]() { return other.encoder->encode_string(input, source); });
                    sim_fs_exempt_end();
                    if (!ok) sim_fail("oracle:rejected", "encoding %zu bytes in memory failed", input.size());
                }
                if (j.medium != 3) put_file(in, source);
                if (j.medium == 1) put_file(out, std::string(source.size() * 2 + 4000, '='));
                std::string result;
                bool const full = sim_fs_is_full() != 0; // from before
                int const before = hard_faults();
                std::string const target = j.medium == 4 ? dir + "missing/out" : j.medium == 5 ? "/dev/null" : out;
                std::atomic<bool> moved {false};
                Threads mover;
                if (j.vanish)
                    mover.start([&]() {
                        std::string const &from = j.vanish == 1 ? in : out;
                        for (int k = 0; k < j.when; ++k) sim_point();
                        if (::rename(from.c_str(), (from + "_moved").c_str()) == 0) moved = true;
                    });
                bool const ok = guarded(j.encode ? "encoding" : "decoding", [&]() {
                    if (j.medium == 2) return j.encode ? coder.encoder->encode_string(source, result) : coder.decoder->decode_string(source, result);
                    return j.encode ? coder.encoder->encode_file(in, target) : coder.decoder->decode_file(in, target);
                });
                mover.join();
                if (moved) sim_probe(2);
                int const faults = hard_faults() - before;
                {
                    Ignore ig;
                    sim_note("thread %d: %s %s", t, j.encode ? "encode" : "decode", ok ? "ok" : "failed");
                }
                if (faults && !ok) sim_probe(0);
                if (faults && ok) sim_probe(1);
                bool const possible = (j.medium < 3 || j.medium == 5) && j.vanish != 1 && (usable || !j.encode);
                if (!ok && possible && (j.medium == 2 || (faults == 0 && nthreads == 1 && !full))) sim_fail("oracle:rejected", "%s %zu bytes failed although nothing went wrong", j.encode ? "encoding" : "decoding", source.size());
                if (ok && (j.medium == 3 || j.medium == 4)) sim_fail("oracle:false-success", "%s a %s succeeded", j.encode ? "encoding" : "decoding", media[j.medium]);
                if (j.medium == 5) continue; // nothing to be read back
                if (ok && j.medium != 2 && !get_file(out, result) && !(j.vanish == 2 && get_file(out + "_moved", result))) sim_fail("oracle:false-success", "the output file does not exist");
                if (ok && j.encode)
                {
                    std::string decoded;
                    sim_fs_exempt_begin();
                    if (!guarded("decoding", [&]() { return coder.decode(result, decoded); }))
                        sim_fail("oracle:false-success", "the result of encoding %zu bytes of %s (%zu bytes, chunk %u kb, maximum length %u) cannot be decoded", source.size(), content_names[j.kind], result.size(), p.chunk, p.length);
                    sim_fs_exempt_end();
                    if (decoded != input) sim_fail("oracle:false-success", "encoding %zu bytes succeeded, but the result decodes to %zu other ones (%s, chunk %u kb, maximum length %u)", source.size(), decoded.size(), content_names[j.kind], p.chunk, p.length);
                }
                if (ok && !j.encode && result != input) sim_fail("oracle:false-success", "decoding succeeded, but yielded %zu bytes instead of the %zu encoded ones", result.size(), input.size());
                std::string again;
                if (j.medium < 3 && get_file(in, again) && again != source) sim_fail("oracle:input-changed", "the input file was changed");
                sim_hash(static_cast<std::uint64_t>(ok) << 40 | result.size());
            }
        });
    threads.join();
    sim_stop();
}

// ---- damaged data -------------------------------------------------------------------------------
void run_coder_damage()
{
    quiet_default_logger();
    sim_time_budget(900 * sec);
    bool const huffman = sim_param("huffman", 0, 3) != 0;
    static std::uint16_t const chunks[] = {1, 1, 2, 4};
    Coder coder(huffman, chunks[R(0, 3)], static_cast<std::uint8_t>(R(1, 3) == 1 ? R(8, 15) : 11));
    sim_fs_prefix("r/coders/");
    ::mkdir("r/coders", 0700);
    if (coin(20)) sim_fault_rate(SF_READ_EIO, static_cast<int>(R(200, 3000)));
    if (coin(30)) sim_fault_rate(SF_READ_SHORT, static_cast<int>(R(500, 6000)));
    if (coin(15)) sim_fault_rate(SF_WRITE_ENOSPC, static_cast<int>(R(200, 4000)));
    struct Damage
    {
        int kind;
        std::uint64_t where, how;
    };
    struct Item
    {
        int content;
        std::size_t size;
        std::uint64_t seed;
        bool file;
        std::vector<Damage> damage;
    };
    static char const *const kinds[] = {"truncate", "flip a bit", "set a byte", "zero a block", "repeat a block", "drop a block", "append", "damage the header", "damage the code table", "random data", "make up a code table"};
    std::vector<Item> items;
    for (std::uint64_t k = R(1, 3); k > 0; --k)
    {
        Item it;
        it.content = static_cast<int>(R(0, 7));
        it.size = R(0, 3) ? R(0, 900) : R(900, 9000);
        it.seed = R(0, 1u << 30);
        it.file = coin(40);
        for (std::uint64_t d = R(1, 3); d > 0; --d)
        {
            Damage x {static_cast<int>(R(0, huffman ? 10 : 9)), R(0, 1u << 30), R(0, 1u << 30)};
            if (x.kind == 9 && !coin(30)) x.kind = 8;
            it.damage.push_back(x);
        }
        if (sim_op("%s: decode %s of %zu bytes of %s: %s%s%s", huffman ? "Huffman" : "Base64", it.file ? "a file" : "a string", it.size, content_names[it.content], kinds[it.damage[0].kind], it.damage.size() > 1 ? ", " : "",
                it.damage.size() > 1 ? kinds[it.damage[1].kind] : ""))
            items.push_back(std::move(it));
    }
    sim_faults_enable(1);
    bool big = false;
    for (Item const &it : items)
    {
        std::string const input = make_content(it.content, it.size, it.seed);
        std::string encoded;
        if (!coder.encoder->encode_string(input, encoded)) sim_fail("oracle:rejected", "encoding %zu bytes in memory failed", input.size());
        {
            Ignore ig;
            for (Damage const &d : it.damage)
            {
                std::size_t const n = encoded.size();
                if (n == 0) break;
                if (!huffman && (d.kind == 7 || d.kind == 8))
                {
                    // the end, where padding is allowed
                    encoded[n - 1 - d.where % std::min<std::size_t>(n, 5)] = "===A-\n"[d.how % 6];
                    continue;
                }
                std::size_t const at = d.where % n, len = 1 + d.how % 40;
                switch (d.kind)
                {
                    case 0: encoded.resize(at); break;
                    case 1: encoded[at] = static_cast<char>(encoded[at] ^ (1 << d.how % 8)); break;
                    case 2:
                        encoded[at] = static_cast<char>(d.how & 255);
                        if (!huffman && d.how & 256) encoded[d.how & 512 ? at : n - 1 - at % std::min<std::size_t>(n, 5)] = "=A-\n"[d.how >> 10 & 3];
                        break;
                    case 3:
                        for (std::size_t i = at; i < n && i < at + len; ++i) encoded[i] = 0;
                        break;
                    case 4: encoded.insert(at, encoded.substr(at, len)); break;
                    case 5: encoded.erase(at, len); break;
                    case 6: encoded += make_content(1, len, d.how); break;
                    case 7: encoded[d.where % std::min<std::size_t>(n, 5)] = static_cast<char>(d.how % 3 == 0 ? d.how >> 8 & 255 : encoded[d.where % std::min<std::size_t>(n, 5)] ^ (1 << (d.how >> 8) % 8)); break;
                    case 8:
                    {
                        std::size_t const p = std::min<std::size_t>(n - 1, 5 + d.where % 40);
                        encoded[p] = static_cast<char>(d.how % 2 ? d.how >> 8 & 255 : encoded[p] ^ (1 << (d.how >> 8) % 8));
                        // one more length, up to more than the limit allows
                        if (huffman && d.how % 16 < 2 && n > 6) encoded[5] = static_cast<char>(encoded[5] + 1), encoded[4] = static_cast<char>(encoded[4] + d.how % 2);
                        break;
                    }
                    case 10: encoded = make_table(d.how); break;
                    default:
                    {
                        std::string const head = encoded.substr(0, d.how % 7);
                        encoded = head + make_content(d.how & 64 ? 1 : 2, d.where % 300, d.how);
                    }
                }
            }
            // huge chunks only take time and memory
            if (huffman && encoded.size() > 2 && encoded[2] != 0)
            {
                if (!big && it.seed % 30 == 0)
                {
                    big = true;
                    encoded[2] = static_cast<char>(encoded[2] & 15);
                }
                else encoded[2] = 0;
            }
        }
        std::string output;
        bool const ok = guarded("decoding damaged data", [&]() {
            if (!it.file) return coder.decoder->decode_string(encoded, output);
            put_file(dir + "damaged", encoded);
            return coder.decoder->decode_file(dir + "damaged", dir + "output");
        });
        if (ok) sim_probe(0);
        if (ok && it.file) get_file(dir + "output", output);
        // what is accepted is well formed, and the result is what it stands for
        std::string reference;
        if (ok)
        {
            bool const valid = coder.decode(encoded, reference);
            // a decoder may accept other bits under the padding, but neither padding inside nor foreign symbols
            if (!valid) sim_fail("oracle:false-success", "decoding %s data that is not valid succeeded", huffman ? "Huffman" : "Base64");
            if (output != reference) sim_fail("oracle:false-success", "decoding yielded %zu bytes that differ from the %zu expected ones", output.size(), reference.size());
        }
        // the decoder is not damaged by it
        std::string healthy, decoded;
        sim_fs_exempt_begin();
        if (!coder.encoder->encode_string(input, healthy)) sim_fail("oracle:rejected", "encoding failed");
        if (!guarded("decoding", [&]() { return coder.decoder->decode_string(healthy, decoded); }) || decoded != input) sim_fail("oracle:rejected", "the decoder does not decode healthy data any more after damaged data");
        sim_fs_exempt_end();
        sim_hash(static_cast<std::uint64_t>(ok) << 40 | output.size());
    }
    // every byte there is in the place of one symbol: exactly the alphabet is accepted
    std::size_t const len = R(1, 12), spot = R(0, 1000);
    std::uint64_t const seed = R(0, 1u << 30);
    if (!huffman && coin(40) && sim_op("Base64: each byte in the place of a symbol of %zu encoded bytes", len))
    {
        std::string text, reference, output;
        if (!coder.encoder->encode_string(make_content(1, len, seed), text)) sim_fail("oracle:rejected", "encoding %zu bytes in memory failed", len);
        std::size_t const at = spot % (text.size() - (text.size() > 4 ? 4 : 2));
        for (int c = 0; c < 256; ++c)
        {
            text[at] = static_cast<char>(c);
            reference.clear();
            bool const ok = guarded("decoding damaged data", [&]() { return coder.decoder->decode_string(text, output); });
            bool const valid = coder.decode(text, reference);
            if (ok && !valid) sim_fail("oracle:false-success", "decoding Base64 data with the byte %d at position %zu of %zu succeeded", c, at, text.size());
            if (!ok && valid) sim_fail("oracle:rejected", "decoding Base64 data with the byte %d at position %zu of %zu failed", c, at, text.size());
            if (ok && output != reference) sim_fail("oracle:false-success", "decoding Base64 data with the byte %d at position %zu of %zu yielded something else", c, at, text.size());
        }
    }
    sim_stop();
}

// ---- bit streams --------------------------------------------------------------------------------
// A stream buffer that hands out and takes data in pieces, and fails where told to.
struct Pieces : std::streambuf
{
    std::string data;
    Prng g;
    std::size_t max_piece;
    std::size_t pos = 0;           // reading: next byte of data to hand out
    long fail_at = -1;             // reading and writing: error at this byte
    bool by_exception = true;
    bool failed = false;
    bool writing;
    char buffer[64];
    std::size_t base = 0;          // writing: position of pbase()

    Pieces(std::string d, std::uint64_t seed, std::size_t piece, bool w) : data(std::move(d)), g(seed), max_piece(piece), writing(w)
    {
        if (writing) room();
    }
    void room() { setp(buffer, buffer + 1 + g.below(std::min<std::size_t>(max_piece, sizeof buffer))); }
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (fail_at >= 0 && pos >= static_cast<std::size_t>(fail_at))
        {
            failed = true;
            if (by_exception) throw std::ios_base::failure("read error");
            return traits_type::eof();
        }
        std::size_t n = std::min<std::size_t>(data.size() - pos, 1 + g.below(std::min<std::size_t>(max_piece, sizeof buffer)));
        if (fail_at >= 0) n = std::min<std::size_t>(n, static_cast<std::size_t>(fail_at) - pos);
        if (n == 0) return traits_type::eof();
        std::memcpy(buffer, data.data() + pos, n);
        pos += n;
        setg(buffer, buffer, buffer + n);
        return traits_type::to_int_type(*gptr());
    }
    bool store()
    {
        std::size_t const n = static_cast<std::size_t>(pptr() - pbase());
        if (fail_at >= 0 && base + n > static_cast<std::size_t>(fail_at))
        {
            failed = true;
            return false;
        }
        if (data.size() < base + n) data.resize(base + n);
        std::memcpy(data.data() + base, pbase(), n);
        base += n;
        room();
        return true;
    }
    int_type overflow(int_type c) override
    {
        if (!store()) return traits_type::eof();
        if (!traits_type::eq_int_type(c, traits_type::eof())) sputc(traits_type::to_char_type(c));
        return traits_type::not_eof(c);
    }
    int sync() override { return !writing || store() ? 0 : -1; }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        if (!writing || !store()) return pos_type(off_type(-1));
        base = static_cast<std::size_t>(off_type(p));
        return p;
    }
};

struct Field
{
    int type; // 0: u8, 1: u16, 2: u32, 3: u64, 4: word, 5: byte
    unsigned size;
    std::uint64_t value;
};

void run_bits()
{
    sim_time_budget(900 * sec);
    std::vector<Field> fields;
    bool const wide = coin(30);
    for (std::uint64_t k = R(0, 3) ? R(1, 60) : R(60, 400); k > 0; --k)
    {
        Field f;
        f.type = static_cast<int>(R(0, 5));
        if (wide && coin(60)) f.type = 3;
        static unsigned const widths[] = {8, 16, 32, 64, 16, 8};
        f.size = f.type >= 4 || coin(15) ? widths[f.type] : static_cast<unsigned>(R(1, widths[f.type]));
        f.value = sim_plan_rand();
        if (coin(10)) f.value = ~0ULL;
        if (f.size < 64) f.value &= (1ULL << f.size) - 1;
        fields.push_back(f);
    }
    if (!sim_op("write %zu fields", fields.size())) fields.clear();
    int const medium = static_cast<int>(R(0, 9)) < 6 ? 0 : 1; // pieces, file
    std::size_t const piece = coin(50) ? R(1, 9) : 64;
    long const write_fail = medium == 0 && coin(15) ? static_cast<long>(R(0, 120)) : -1;
    std::uint64_t const seed = R(0, 1u << 30);
    sim_fs_prefix("r/coders/");
    ::mkdir("r/coders", 0700);
    if (medium == 1)
    {
        if (coin(40)) sim_fault_rate(SF_READ_EIO, static_cast<int>(R(300, 4000)));
        if (coin(50)) sim_fault_rate(SF_READ_SHORT, static_cast<int>(R(500, 8000)));
        if (coin(30)) sim_fault_rate(SF_EINTR, static_cast<int>(R(300, 3000)));
        if (coin(25)) sim_fault_rate(SF_WRITE_ENOSPC, static_cast<int>(R(200, 4000)));
        if (coin(25)) sim_fault_rate(SF_WRITE_SHORT, static_cast<int>(R(200, 4000)));
        if (coin(15)) sim_fault_rate(SF_WRITE_EIO, static_cast<int>(R(200, 4000)));
        if (coin(15)) sim_fault_rate(SF_CLOSE_FAIL, static_cast<int>(R(200, 4000)));
    }
    sim_faults_enable(1);

    // ---- write
    std::string reference; // one character per bit
    {
        Ignore ig;
        for (Field const &f : fields)
            for (unsigned b = f.size; b-- > 0;) reference.push_back((f.value >> b & 1) ? '1' : '0');
    }
    std::string stored;
    bool written = false;
    int const before = hard_faults();
    auto write_all = [&](std::ostream &stream) {
        fly::BitStreamWriter writer(stream);
        for (Field const &f : fields)
            switch (f.type)
            {
                case 0: writer.write_bits(static_cast<std::uint8_t>(f.value), static_cast<fly::byte_type>(f.size)); break;
                case 1: writer.write_bits(static_cast<std::uint16_t>(f.value), static_cast<fly::byte_type>(f.size)); break;
                case 2: writer.write_bits(static_cast<std::uint32_t>(f.value), static_cast<fly::byte_type>(f.size)); break;
                case 3: writer.write_bits(f.value, static_cast<fly::byte_type>(f.size)); break;
                case 4: writer.write_word(static_cast<fly::word_type>(f.value)); break;
                default: writer.write_byte(static_cast<fly::byte_type>(f.value)); break;
            }
        return writer.finish();
    };
    if (medium == 0)
    {
        Pieces buffer("", seed, piece, true);
        buffer.fail_at = write_fail;
        std::ostream stream(&buffer);
        written = guarded("writing bits", [&]() { return write_all(stream); });
        if (written && buffer.failed) sim_fail("oracle:false-success", "writing bits succeeded although the stream did not take all of them");
        bool const synced = !buffer.failed && buffer.pubsync() == 0;
        if (!written && !buffer.failed) sim_fail("oracle:false-failure", "writing bits failed although the stream did not");
        written = written && synced;
        stored = buffer.data;
    }
    else
    {
        std::ofstream stream(dir + "bits", std::ios::out | std::ios::binary | std::ios::trunc);
        if (stream)
        {
            written = guarded("writing bits", [&]() { return write_all(stream); });
            if (!written && hard_faults() == before) sim_fail("oracle:false-failure", "writing bits failed although the file did not");
            stream.close();
            written = written && stream.good();
        }
        if (written && !get_file(dir + "bits", stored)) sim_fail("oracle:false-success", "the file does not exist");
    }
    if (!written)
    {
        if (hard_faults() == before && write_fail < 0) sim_fail("oracle:false-failure", "writing bits failed although nothing went wrong");
        sim_probe(0);
        sim_stop();
        return;
    }

    // ---- read
    std::size_t const total = stored.size();
    bool truncated = coin(20) && total > 1;
    if (truncated) stored.resize(R(1, total - 1));
    long const read_fail = medium == 0 && coin(25) ? static_cast<long>(R(0, total)) : -1;
    bool const by_exception = coin(70);
    if (read_fail >= 0 && !by_exception) truncated = true; // looks like the end of the file
    int const style = static_cast<int>(R(0, 3)); // as written, random sizes, bits in small pieces, mostly 64 bits
    std::uint64_t const read_seed = R(0, 1u << 30);
    auto read_all = [&](std::istream &stream, std::function<bool()> const &erroneous) {
        fly::BitStreamReader reader(stream);
        if (!stream)
        {
            if (!erroneous() && !truncated) sim_fail("oracle:false-failure", "a bit stream was not recognised");
            return;
        }
        Prng g(read_seed);
        std::size_t at = 0, field = 0;
        bool end = false;
        auto check = [&](std::uint64_t value, unsigned n, char const *what) {
            Ignore ig;
            for (unsigned b = 0; b < n; ++b)
            {
                if (at + b >= reference.size())
                {
                    // the bits which fill the last byte are recognised by the end of the stream
                    sim_fail("oracle:bits-invented", "%s returned %u bits at bit %zu of %zu", what, n, at, reference.size());
                }
                char const bit = (value >> (n - 1 - b) & 1) ? '1' : '0';
                if (reference[at + b] != bit) sim_fail("oracle:bits-wrong", "%s returned a wrong bit %zu of %zu", what, at + b, reference.size());
            }
        };
        for (int guard = 0; !end && guard < 200000; ++guard)
        {
            unsigned size;
            int type;
            bool const peek_first = g.below(4) == 0, peek_only = g.below(9) == 0;
            if (style == 0 && field < fields.size())
            {
                size = fields[field].size;
                type = fields[field++].type;
            }
            else
            {
                static unsigned const widths[] = {8, 16, 32, 64, 16, 8};
                type = style == 3 && g.below(3) ? 3 : static_cast<int>(g.below(6));
                if (style == 2) type = 0;
                size = type >= 4 ? widths[type] : static_cast<unsigned>(1 + g.below(style == 2 ? 3 : widths[type]));
            }
            if (peek_first && size <= 32)
            {
                std::uint32_t peeked = 0;
                unsigned const n = reader.peek_bits(peeked, static_cast<fly::byte_type>(size));
                if (n > size) sim_fail("oracle:bits-invented", "peek_bits(%u) returned %u", size, n);
                check(peeked >> (size - n), n, "peek_bits");
                if (peek_only)
                {
                    unsigned const drop = n ? static_cast<unsigned>(g.below(n + 1)) : 0;
                    reader.discard_bits(static_cast<fly::byte_type>(drop));
                    at += drop;
                    if (style == 0 && field > 0) field = fields.size();
                    if (n < size && drop == 0) end = n == 0;
                    continue;
                }
            }
            unsigned n = 0;
            std::uint64_t value = 0;
            bool whole = false, is_bool = false;
            switch (type)
            {
                case 0: { std::uint8_t v = 0; n = reader.read_bits(v, static_cast<fly::byte_type>(size)); value = v; break; }
                case 1: { std::uint16_t v = 0; n = reader.read_bits(v, static_cast<fly::byte_type>(size)); value = v; break; }
                case 2: { std::uint32_t v = 0; n = reader.read_bits(v, static_cast<fly::byte_type>(size)); value = v; break; }
                case 3: { std::uint64_t v = 0; n = reader.read_bits(v, static_cast<fly::byte_type>(size)); value = v; break; }
                case 4: { fly::word_type v = 0; whole = reader.read_word(v); is_bool = true; value = v; break; }
                default: { fly::byte_type v = 0; whole = reader.read_byte(v); is_bool = true; value = v; break; }
            }
            if (is_bool)
            {
                if (!whole)
                {
                    // how much was left is not known; it must have been less than that
                    if (!erroneous() && !truncated && reference.size() - at >= size) sim_fail("oracle:bits-lost", "reading %u bits failed at bit %zu of %zu", size, at, reference.size());
                    sim_hash(at);
                    return;
                }
                n = size;
            }
            if (n > size) sim_fail("oracle:bits-invented", "read_bits(%u) returned %u", size, n);
            check(n < size ? value >> (size - n) : value, n, "read_bits");
            at += n;
            if (n < size)
            {
                if (!erroneous() && !truncated && at != reference.size()) sim_fail("oracle:bits-lost", "read_bits(%u) returned %u bits at bit %zu of %zu", size, n, at - n, reference.size());
                end = true;
            }
            else if (at == reference.size() && g.below(2))
                end = true;
        }
        bool const consumed = reader.fully_consumed();
        if (!erroneous() && !truncated && at == reference.size() && !consumed) sim_fail("oracle:end", "the end of the stream is not recognised");
        if (consumed && (truncated ? false : at != reference.size())) sim_fail("oracle:end", "the end of the stream is reported at bit %zu of %zu", at, reference.size());
        if (erroneous()) sim_probe(1);
        if (at == reference.size()) sim_probe(2);
        sim_hash(at);
    };
    if (medium == 0)
    {
        Pieces buffer(stored, read_seed ^ 99, piece, false);
        buffer.fail_at = read_fail;
        buffer.by_exception = by_exception;
        std::istream stream(&buffer);
        // an end of file in the middle is a truncated stream
        try
        {
            read_all(stream, [&]() { return buffer.failed; });
        }
        catch (std::exception const &e)
        {
            sim_fail("oracle:exception", "reading bits threw %s", e.what());
        }
    }
    else
    {
        if (truncated) put_file(dir + "bits", stored);
        int const b = hard_faults();
        try
        {
            std::ifstream stream(dir + "bits", std::ios::in | std::ios::binary);
            if (stream) read_all(stream, [&]() { return hard_faults() > b; });
        }
        catch (std::exception const &e)
        {
            sim_fail("oracle:exception", "reading bits threw %s", e.what());
        }
    }
    sim_stop();
}

SIM_SCENARIO(coder_files, 4, "failed_by_fault", "succeeded_despite_fault", "file_moved_away") { run_coder_files(); }
SIM_SCENARIO(coder_damage, 3, "decoded_to_something") { run_coder_damage(); }
SIM_SCENARIO(bit_streams, 3, "write_failed", "read_error", "all_read") { run_bits(); }

} // namespace
