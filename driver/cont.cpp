// Replays behaviours of ContGen.tla: builds the key container each one describes, imports it and compares the outcome,
// the reported rights and the value of the key with what the specification says.
#include "common/runner.h"
#include <ctime>
#include <algorithm>
extern "C" bool load_pkcs12_secret_key(void* key, size_t* key_length, char* name, size_t* name_length);
static const char* FLAGS[] = {"X", "D", "W", "E", "C", "S", "au", "ac", "du", "d14", "d22", "dt", "so", "ca"};
static uint64_t flags_of(const json& f) { uint64_t v = 0; for (auto& x : f) for (int i = 0; i < 14; i++) if (x == FLAGS[i]) v |= 1ull << i; return v; }
static bytes root_key(const string& name) {
    static std::map<string, bytes> c; auto it = c.find(name); if (it != c.end()) return it->second; uint8_t k[64]; size_t n = 64; char nm[64] = ""; size_t nn = sizeof nm; strcpy(nm, name.c_str());
    bytes r; if (load_pkcs12_secret_key(k, &n, nm, &nn) && n >= 16 && n <= 64) r.assign(k, k + 16); return c[name] = r;
}
static bytes by(const string& s) { return bytes(s.begin(), s.end()); }
static string st_of(const bytes& b) { return string(b.begin(), b.end()); }
static string b64(const bytes& b, bool url, bool pad) {
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; size_t i = 0;
    for (; i < b.size(); i += 3) { uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); size_t k = std::min<size_t>(3, b.size() - i); for (size_t j = 0; j < 4; j++) if (j <= k) o += A[v >> (18 - 6 * j) & 63]; else if (pad) o += '='; }
    if (url) for (auto& c : o) { if (c == '+') c = '-'; if (c == '/') c = '_'; } return o;
}
struct Val { string text; bytes raw; vector<string> list; string str; };      // JSON text; what is authenticated (SOC); the identifiers
struct Run : Base {
    uint64_t h[3] = {0, 0, 0}; std::map<string, uint64_t> key[3]; std::map<string, bytes> kv; std::map<string, json> kspec; std::map<string, Val> memo; vector<uint64_t> released;
    explicit Run(uint64_t seed) : Base(seed) {}
    uint64_t below(uint64_t n) { return rnd.below(n); }
    void as(int u) { caller(PUB ? 0 : h[u], uuid_of(PUB ? 1 : u)); }
    static bool isok(const json& x) { return x["k"] == "ok"; }
    // --- texts ----------------------------------------------------------------------------------------------------
    string ws() { static const char* W[] = {"", "", "", " ", "\n", "\t ", "\r\n  "}; return W[below(7)]; }
    string quote(const string& s) { string o = "\""; for (char c : s) { if (below(40) == 0) { char b[8]; snprintf(b, 8, "\\u%04x", (uint8_t) c); o += b; } else if (c == '/' && below(4) == 0) o += "\\/"; else o += c; } return o + "\""; }
    string time_text(long v) { time_t t = v == 0 ? 0 : v >= 5000 ? (time_t) 253402300799ll : (time_t) (BASE_T + v); struct tm m; gmtime_r(&t, &m); char b[40]; strftime(b, 40, "%Y-%m-%dT%H:%M:%SZ", &m); return b; }
    static uint64_t time_val(long v, bool soc) { return v == 0 ? 0 : v >= 5000 ? (soc ? UINT64_MAX : 253402300799ull) : BASE_T + v; }
    string uuid_text(const sa_uuid& u) { string o; char b[4]; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) o += "-"; snprintf(b, 4, below(2) ? "%02x" : "%02X", u.id[i]); o += b; } return o; }
    vector<sa_uuid> tas(const string& ta) {
        vector<sa_uuid> l; sa_uuid a; auto filler = [&]() { sa_uuid x; for (auto& b : x.id) b = rnd.next(); x.id[15] = 0x11; x.id[0] &= 0x7f; return x; };
        if (ta == "all") { memset(a.id, 0xff, 16); l.push_back(a); } else if (ta == "u1") l = {uuid_of(1)}; else if (ta == "u2") l = {uuid_of(2)};
        else if (ta == "u1last") { for (int i = 0; i < 31; i++) l.push_back(filler()); l.push_back(uuid_of(1)); } else if (ta == "mix12") l = {uuid_of(2), filler(), uuid_of(1)};
        else if (ta == "near1") { a = uuid_of(1); a.id[15] ^= 1; l.push_back(a); a = uuid_of(1); a.id[0] ^= 0x80; l.push_back(a); } else if (ta == "many") for (int i = 0; i < 32; i++) l.push_back(filler());
        return l;
    }
    string arr(const vector<string>& l) { string o = "[" + ws(); for (size_t i = 0; i < l.size(); i++) o += (i ? "," : "") + ws() + l[i] + ws(); return o + "]"; }
    static bytes first(const bytes& b, size_t n) { bytes o = b; o.resize(n, 0); return o; }
    string wrong(char want) {      // a value of another type
        vector<string> v = {"[]", "{}", "[\"AAAA\"]", "{\"alg\":\"A\"}"}; if (want != 's') { v.push_back("\"2\""); v.push_back("\"1\""); v.push_back("\"true\""); } if (want != 'i') { v.push_back("1"); v.push_back("2"); v.push_back("-7"); } else { v.push_back("2.5"); v.push_back("1.0"); v.push_back("1e0"); } if (want != 'b') { v.push_back("true"); v.push_back("false"); } if (want == 'a') { v.erase(v.begin()); v.erase(v.begin() + 1); v.push_back("\"" + uuid_text(uuid_of(1)) + "\""); }
        return v[below(v.size())];
    }
    string pick(std::initializer_list<const char*> l) { return *(l.begin() + below(l.size())); }
    string badb64(const bytes& b) { string s = b64(b, false, true); switch (below(5)) { case 0: s[below(s.size())] = pick({"!", "*", ".", ",", "~"})[0]; return s; case 1: return s.substr(0, s.size() - 1 - below(2)); case 2: return s + "A"; case 3: return "=" + s.substr(1); default: s[below(std::max<size_t>(1, s.size() - 4))] = '='; return s; } }
    bytes plain_key(const json& kt) {      // SOC: a key of that type
        string n = kt; string id = "plain" + n; auto it = memo.find(id); if (it != memo.end()) return it->second.raw; bytes b; static const std::map<string, string> CV = {{"ECC-P192", "p192"}, {"ECC-P224", "p224"}, {"ECC-P256", "p256"}, {"ECC-P384", "p384"}, {"ECC-P521", "p521"}, {"ECC-ED25519", "ed25519"}, {"ECC-ED448", "ed448"}, {"ECC-X25519", "x25519"}, {"ECC-X448", "x448"}};
        if (n.substr(0, 3) == "ECC") b = ref::ec_der(CV.at(n), rnd.next() % 100000); else if (n.substr(0, 3) == "RSA") b = ref::rsa_der(atoi(n.c_str() + 4) / 8, 1 + below(2)); else b = rnd.get(n == "HMAC-160" ? 20 : atoi(n.c_str() + n.find('-') + 1) / 8);
        memo[id].raw = b; return b;
    }
    const Val& field(const string& name, const json& x, bool soc, const json& c, const string& kc) {
        string id = name + x.dump(); auto it = memo.find(id); if (it != memo.end()) return it->second; Val v; string k = x["k"];
        char want = soc ? (name == "ver" || name == "usage" || name == "dusage" ? 'i' : name == "ta" ? 'a' : 's') : (name == "usage" || name == "ver" || name == "len" ? 'i' : name == "cach" ? 'b' : name == "ta" ? 'a' : 's');
        if (k == "null") v.text = "null"; else if (k == "wrong") v.text = wrong(want);
        else if (k == "ok" && name == "ta") { for (auto& u : tas(x["v"])) { v.list.push_back(st_of(bytes(u.id, u.id + 16))); string t = uuid_text(u); v.str += t; } vector<string> l; for (size_t i = 0; i < v.str.size(); i += 36) { l.push_back(quote(v.str.substr(i, 36))); } v.text = arr(l); for (char ch : v.str) v.raw.push_back(tolower(ch)); }
        else if (k == "junk" && name == "ta") {
            vector<string> l; int n = 1 + below(3), at = below(n); string all; auto add = [&](const string& t, bool q) { l.push_back(q ? quote(t) : t); all += t; };
            int how = below(6); if (how == 0) { n = 33 + below(8); at = -1; }
            for (int i = 0; i < n; i++) { string t = uuid_text(below(2) ? uuid_of(1) : tas("many")[0]); if (i == at) { if (how == 1) t = t.substr(0, 35); else if (how == 2) t += "0"; else if (how == 3) t[pick({"\x00", "\x07", "\x23", "\x14"})[0] & 31 ? 35 : 0] = 'g'; else if (how == 4) { add(pick({"1", "null", "true", "[]", "{}"}), false); continue; } else t[8 + below(2) * 5] = ' '; } add(t, true); }
            v.text = arr(l); for (char ch : all) v.raw.push_back(tolower(ch));
        }
        else if (!soc) {
            if (name == "id") { string s; size_t n = k == "ok" ? x["v"].get<size_t>() : 64 + below(5) * below(100); for (size_t i = 0; i < n; i++) s += (char) ('a' + below(26)); v.str = s; v.text = quote(s); }
            else if (name == "rights") { bytes b; if (k == "ok") for (auto& y : x["v"]) b.push_back(y.get<int>()); else { b = {1, 2}; static const int U[] = {6, 7, 9, 10, 0x80, 0x81, 255, 0x15}; b.insert(b.begin() + below(3), U[below(8)]); } v.text = quote(k == "ok" || below(2) ? b64(b, false, true) : badb64(b)); }
            else if (name == "usage") v.text = k == "ok" ? std::to_string(x["v"].get<int>()) : pick({"-1", "4", "5", "256", "257", "258", "65537", "4294967296", "4294967297", "4294967298", "9223372036854775808", "18446744073709551617", "99999999999999999999999"});
            else if (name == "nb" || name == "na") { if (k == "ok") v.text = quote(time_text(x["v"])); else { string t = time_text(150); switch (below(10)) { case 0: t.pop_back(); break; case 1: t += "Z"; break; case 2: t = "1960" + t.substr(4); break; case 3: t.replace(5, 2, "13"); break; case 4: t.back() = '0'; break; case 5: t[10] = ' '; break; case 6: t.replace(11, 2, "25"); break; case 7: t = ""; break; case 8: t = t.substr(0, 19) + "+"; break; default: t = "not a time at all..."; } v.text = quote(t); } }
            else if (name == "cach") v.text = k == "ok" ? (x["v"].get<bool>() ? "true" : "false") : pick({"1", "0", "\"true\"", "\"\""});
            else if (name == "ver") v.text = k == "ok" ? std::to_string(x["v"].get<int>()) : pick({"0", "4", "-1", "257", "258", "259", "65537", "4294967297", "4294967298", "18446744073709551617"});
            else if (name == "len") { long n = k == "ok" ? x["v"].get<long>() : isok(c["f"]["key"]) ? c["f"]["key"]["v"]["n"].get<long>() : 16; v.text = k == "ok" ? std::to_string(n) : below(3) == 0 ? std::to_string(n + 4294967296l) : below(2) ? std::to_string(n + (below(2) ? 256 : 65536)) : below(2) ? std::to_string(-n) : std::to_string(n + 1); }
            else if (name == "alg") v.text = quote(k == "ok" ? x["v"].get<string>() : pick({"", "aesEcb", "aesEcbNon", "aesEcbNonee", "AesEcbNone", "aesCbcPkcs7", "aesCbcPkcs", "aesCbcPkcs55", "none", "aes", "a"}));
            else if (name == "iv") { bytes b = rnd.get(16); v.raw = b; v.text = quote(k == "ok" ? b64(b, false, true) : below(3) == 0 ? badb64(b) : b64(rnd.get(std::initializer_list<size_t>{0, 1, 8, 15, 17, 32, 48}.begin()[below(7)]), false, true)); if (k != "ok") v.raw = rnd.get(16); }
            else if (name == "key") {
                string enc = k == "ok" ? x["v"]["enc"].get<string>() : "aesEcbNone"; size_t n = k == "ok" ? x["v"]["n"].get<size_t>() : 16; bytes p = rnd.get(n), t = p, iv, K = kv.count(kc) ? kv[kc] : rnd.get(16); K.resize(K.size() >= 32 ? 32 : 16);
                bool cbc = enc.substr(0, 6) == "aesCbc", pkcs = enc.find("Pkcs5") != string::npos; if (pkcs) { size_t pad = 16 - n % 16; t.insert(t.end(), pad, (uint8_t) pad); }
                if (cbc) { const json& y = isok(c["m"]["iv"]) || c["m"]["iv"]["k"] != "abs" ? c["m"]["iv"] : c["f"]["iv"]; iv = y["k"] == "abs" ? rnd.get(16) : field("iv", y, soc, c, kc).raw; iv.resize(16); }
                bytes ct = t.size() % 16 || t.empty() ? t : ref::crypt(cbc ? "cbc" : "ecb", true, K, iv, {}, t); v.raw = p; v.text = quote(k == "ok" ? b64(ct, false, true) : badb64(ct));
            }
        } else {
            if (name == "alg") { v.str = k == "ok" ? "A128GCM" : pick({"A128", "A128GC", "A128GCM ", "A128GCMM", "A256GCM", "a128gcm", "none", "", "A128CBC"}); v.text = quote(v.str); v.raw = by(v.str); }
            else if (name == "ver" || name == "usage" || name == "dusage") { if (k == "ok") { v.text = std::to_string(x["v"].get<int>()); v.raw = {(uint8_t) x["v"].get<int>()}; } else { bool ver = name == "ver"; long n = ver ? std::initializer_list<long>{0, 3, -1, 260, 261, 516, 65540, 65541, 4294967300l, 4294967301l, -252, -251}.begin()[below(12)] : std::initializer_list<long>{0, 4, 5, -1, 255, 257, 258, 259, 65537, 4294967297l, 4294967298l, 4294967299l, -253, -254}.begin()[below(14)]; v.text = std::to_string(n); v.raw = {(uint8_t) n}; if (below(12) == 0) v.text = pick({"18446744073709551620", "9223372036854775812"}), v.raw = {4}; } }
            else if (name == "rkt") { v.str = k == "ok" ? x["v"].get<string>() : pick({"", "u", "uniq", "unique ", "uniquely", "Unique", "commo", "common\\u0000", "commonx", "com", "device"}); v.text = k == "ok" ? quote(v.str) : "\"" + v.str + "\""; v.raw = by(v.str.substr(0, 6)); }
            else if (name == "kt") { v.str = k == "ok" ? x["v"].get<string>() : pick({"", "A", "AES-12", "AES-1288", "AES-128 ", "AES-192", "aes-128", "HMAC-1", "HMAC", "HMAC-512", "RSA-2049", "RSA-512", "ECC-P25", "ECC-", "ECC-P2566", "CHACHA20", "DH-2048", "LONG"}); if (v.str == "LONG") v.str = string(1300 + below(3000), 'A'); v.text = quote(v.str); v.raw = by(v.str); }
            else if (name == "iv" || name[0] == 'c') { size_t n = name == "iv" ? 12 : 16; bool url = name == "c2"; v.raw = rnd.get(n); if (k == "ok") v.text = quote(b64(v.raw, url, url ? below(2) : true)); else { bytes b = v.raw; static const int D[] = {-16, -12, -4, -1, 1, 4, 16, 20, 32, 100}; if (below(3)) { int d = D[below(10)]; size_t m = (long) n + d < 0 ? 0 : n + d; b = rnd.get(m); v.text = quote(b64(b, url, true)); v.raw = first(b, n); } else v.text = quote(url ? "!" + b64(b, true, false).substr(1) : badb64(b)); } }
            else if (name == "key") v.text = "";      // set by the builder: it depends on the rest
        }
        return memo[id] = v;
    }
    // --- containers -------------------------------------------------------------------------------------------------
    string object(vector<std::pair<string, string>> kvs, const string& fault) {
        for (size_t i = kvs.size(); i > 1; i--) std::swap(kvs[i - 1], kvs[below(i)]);
        while (below(3) == 0) kvs.insert(kvs.begin() + below(kvs.size() + 1), {"x" + std::to_string(below(1000000)), pick({"1", "null", "\"y\"", "[1,[2,{}]]", "{\"usage\":1}", "true", "2.5"})});
        if (fault == "deepfield") { size_t d = 10 + below(200000); kvs.insert(kvs.begin() + below(kvs.size() + 1), {"deep", string(d, '[') + string(d, ']')}); }
        if (fault == "utf8") kvs.insert(kvs.begin() + below(kvs.size() + 1), {"u", pick({"\"\xff\"", "\"\xc3(\"", "\"\x80\"", "\"\xe2\x28\xa1\""})});
        if (fault == "ctl") kvs.insert(kvs.begin() + below(kvs.size() + 1), {"u", pick({"\"\x01\"", "\"a\nb\"", "\"\x1f\""})});
        string o = ws() + "{"; for (size_t i = 0; i < kvs.size(); i++) o += (i ? "," : "") + ws() + quote(kvs[i].first) + ws() + ":" + ws() + kvs[i].second + ws(); o += "}";
        if (fault == "garbage") { o = st_of(rnd.get(1 + below(60))); o[0] = '%'; } else if (fault == "array") o = "[" + o + "]"; else if (fault == "string") o = "\"abc\""; else if (fault == "number") o = "12"; else if (fault == "null") o = "null"; else if (fault == "empty") o = "";
        else if (fault == "trunc") o = o.substr(0, o.size() - 1 - below(o.size() - 2)); else if (fault == "deep") o = (below(2) ? "{\"a\":" : "") + string(1000 + below(300000), '['); else if (fault == "trail") o += pick({"x", "{}", "}", ",", "]", "1"});
        return o;
    }
    bytes apply_form(const string& form, string H, string P, string M, std::function<string(const string&, const string&)> mac, bool fliph = false) {
        if (form == "nodot") return by(below(2) ? H + P + M : H); if (form == "onedot") return by(below(2) ? H + "." + P : H + P + "." + M); if (form == "emptyh") return by("." + P + "." + (fliph ? part(rnd.get(32)) : mac("", P))); if (form == "emptyp") return by(H + ".." + mac(H, "")); if (form == "emptym") return by(H + "." + P + ".");
        if (form == "extra") return by(H + "." + P + "." + M + pick({".", ".AAAA", ".x"})); char j = pick({"!", "=", " ", "\n", "\"", "*"})[0];
        if (form == "badh") { H[below(H.size() - 2)] = j; return by(H + "." + P + "." + mac(H, P)); } if (form == "badp") { P[below(P.size() > 3 ? P.size() - 2 : 1)] = j; return by(H + "." + P + "." + mac(H, P)); } if (form == "badm") { if (!M.empty()) M[below(M.size() > 3 ? M.size() - 2 : 1)] = j; return by(H + "." + P + "." + M); }
        bytes b = by(H + "." + P + "." + M); while (!b.empty() && b.back() == '=') b.pop_back();
        if (form == "cut") { b.resize(b.size() < 4 || below(3) == 0 ? b.size() - 1 : below(b.size())); return b; } if (form == "lead") { b.insert(b.begin(), pick({" ", ".", "\n", "=", "A."})[0]); return b; } if (form == "bytes") return rnd.get(1 + below(400)); if (form == "zero") return {};
        return by(H + "." + P + "." + M);
    }
    string part(const bytes& b) { return b64(b, true, below(8) == 0); }
    static const char* tjname(const string& f) { static const std::map<string, const char*> N = {{"id", "contentKeyId"}, {"rights", "contentKeyRights"}, {"usage", "contentKeyUsage"}, {"nb", "contentKeyNotBefore"}, {"na", "contentKeyNotOnOrAfter"}, {"cach", "contentKeyCacheable"}, {"key", "contentKey"}, {"ta", "entitledTaIds"}, {"ver", "contentKeyContainerVersion"}, {"alg", "contentKeyTransportAlgorithm"}, {"len", "contentKeyLength"}, {"iv", "contentKeyTransportIv"}}; return N.at(f); }
    static const char* socname(const string& f) { static const std::map<string, const char*> N = {{"ver", "containerVersion"}, {"rkt", "rootKeyType"}, {"kt", "keyType"}, {"key", "encryptedKey"}, {"iv", "iv"}, {"usage", "keyUsage"}, {"dusage", "decryptedKeyUsage"}, {"ta", "entitledTaIds"}, {"c1", "c1"}, {"c2", "c2"}, {"c3", "c3"}}; return N.at(f); }
    string flipb64(string s) { if (s.empty()) return "A"; size_t i = below(s.size()); while (i > 0 && s[i] == '=') i--; s[i] = s[i] == 'A' ? 'B' : 'A'; return s; }
    bytes typej(const json& a) {
        const json& c = a["c"]; string code = c["code"], kc = a["kc"], khn = a["kh"], form = c["form"]; bytes K = kv.count(khn) ? kv[khn] : rnd.get(32);
        auto payload = [&](const json& f) { vector<std::pair<string, string>> l; for (auto& e : f.items()) if (e.value()["k"] != "abs") l.push_back({tjname(e.key()), field(e.key(), e.value(), false, c, kc).text}); return object(l, c["json"]); };
        string H = part(by(code == "none" && below(2) ? "{\"alg\":\"none\"}" : pick({"{\"alg\":\"HS256\"}", "{\"alg\":\"HS256\",\"kid\":\"sessionid\"}", "{\"typ\":\"JWT\",\"alg\":\"HS256\"}"}))), P = part(by(payload(c["f"])));
        string Hm = H, Pm = P; if (c["f"] != c["m"]) Pm = part(by(payload(c["m"])));
        auto raw = [&](const string& h, const string& p) { return ref::hmac("sha256", K, by(h + "." + p)); };
        auto mac = [&](const string& h, const string& p) {
            bytes m = raw(h, p); if (code == "flip") m[below(32)] ^= 1 << below(8); else if (code == "other") { bytes k2 = K; if (below(2)) k2 = rnd.get(32); else k2[below(k2.size())] ^= 1; m = ref::hmac("sha256", k2, by(h + "." + p)); } else if (code == "short") m.resize(std::initializer_list<size_t>{31, 28, 20, 16, 8, 1}.begin()[below(6)]); else if (code == "long") { bytes x = rnd.get(1 + below(33)); m.insert(m.end(), x.begin(), x.end()); } else if (code == "none") { if (below(2)) m.clear(); else m = bytes(32, 0); }
            else if (code == "payloadonly") m = ref::hmac("sha256", K, by(p)); else if (code == "swap") m = raw(p, h); return m;
        };
        string M = part(mac(Hm, Pm)); if (code == "flipp") P = flipb64(P); else if (code == "fliph") H = flipb64(H);
        return apply_form(form, H, P, M, [&](const string& h, const string& p) { return part(mac(h, c["f"] == c["m"] && code != "flipp" && code != "fliph" ? p : Pm)); }, code == "fliph");
    }
    bytes soc(const json& a) {
        const json& c = a["c"]; string code = c["code"]; const json& m = c["m"];
        auto val = [&](const json& f, const char* n) -> const Val& { return field(n, f[n], true, c, ""); }; auto raw = [&](const char* n) -> bytes { return m[n]["k"] == "abs" ? bytes() : val(m, n).raw; };
        auto lad = [&](const char* n) { return first(raw(n), 16); };
        bool v5 = m["ver"]["k"] == "ok" && m["ver"]["v"].get<int>() >= 5; string root = v5 && m["rkt"]["k"] != "abs" ? st_of(raw("rkt")) : "unique"; if (code == "wrongroot") root = root == "common" ? "unique" : "common";
        bytes rk = root_key(root.substr(0, 3) == "com" || root.substr(0, 3) == "Com" ? "commonroot" : ""); auto dec = [](const bytes& k, const bytes& x) { return ref::crypt("ecb", false, k, {}, {}, x); };
        bytes k3 = dec(dec(dec(rk, lad("c1")), lad("c2")), lad("c3")), iv = first(raw("iv"), 12);
        auto aad_of = [&](const bytes& alg) { bytes o = alg; auto add = [&](const bytes& b) { o.insert(o.end(), b.begin(), b.end()); }; add(first(raw("ver"), 1)); if (v5) add(raw("rkt")); add(raw("kt")); bytes us = raw("usage"); add(first(us, 1)); if (us == bytes{2}) add(first(raw("dusage"), 1)); add(iv); add(lad("c1")); add(lad("c2")); add(lad("c3")); add(raw("ta")); return o; };
        bytes alg = raw("alg"), tag, tag2; auto ck = [&](const json& x) { return x["k"] == "ok" ? plain_key(x["v"]) : plain_key("AES-128"); };
        bytes ct = ref::crypt("gcm", true, k3, iv, aad_of(alg), ck(m["key"]), &tag), ctf = ct; if (c["f"]["key"] != m["key"]) ctf = ref::crypt("gcm", true, k3, iv, {}, ck(c["f"]["key"]), &tag2);
        if (code == "flipct") ctf[below(ctf.size())] ^= 1 << below(8);
        string kt; { const json& x = c["f"]["key"]; string k = x["k"]; kt = k == "ok" ? quote(b64(ctf, false, true)) : k == "null" ? "null" : k == "wrong" ? wrong('s') : quote(badb64(ctf)); }
        vector<std::pair<string, string>> l, hl; for (auto& e : c["f"].items()) { if (e.value()["k"] == "abs") continue; if (e.key() == "alg") hl.push_back({"alg", val(c["f"], "alg").text}); else if (e.key() == "key") l.push_back({"encryptedKey", kt}); else l.push_back({socname(e.key()), field(e.key(), e.value(), true, c, "").text}); }
        string H = part(by(object(hl, c["hjson"]))), P = part(by(object(l, c["json"])));
        if (code == "flip") tag[below(16)] ^= 1 << below(8); else if (code == "short") tag.resize(std::initializer_list<size_t>{15, 14, 13, 12, 8, 4, 1}.begin()[below(7)]); else if (code == "long") { bytes x = rnd.get(1 + below(16)); tag.insert(tag.end(), x.begin(), x.end()); } else if (code == "none") { if (below(2)) tag.clear(); else tag = bytes(16, 0); }
        string M = part(tag); return apply_form(c["form"], H, P, M, [&](const string&, const string&) { return M; });
    }
    // --- running ----------------------------------------------------------------------------------------------------
    void setup(const json& spec) {
        for (int u = 1; u <= (PUB ? 1 : 2); u++) {
            if (!PUB) { ta_client c; cu = uuid_of(u); RAW("init", ta_sa_init(&c, &cu)); if (st) bad({"P03"}, "opening a session fails"); h[u] = c; } as(u);
            for (auto& e : spec.items()) {
                const json& k = e.value(); string n = e.key(); kspec[n] = k; sa_rights r; memset(&r, 0, sizeof r); r.usage_flags = flags_of(k["r"]["f"]); r.child_usage_flags = flags_of(k["r"]["c"]); r.not_on_or_after = time_val(k["r"]["na"], true); r.not_before = time_val(k["r"]["nb"], true); auto l = tas(k["r"]["ta"]); for (size_t i = 0; i < l.size(); i++) r.allowed_tas[i] = l[i];
                bool rsa = k["t"] == "rsa"; if (!kv.count(n)) kv[n] = rsa ? ref::rsa_der(k["n"], 1) : rnd.get(k["n"].get<size_t>()); sa_import_parameters_symmetric p = {&r}; sa_import_parameters_rsa_private_key_info pr = {&r}; sa_key x = INVALID_HANDLE;
                API(key_import, &x, rsa ? SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO : SA_KEY_FORMAT_SYMMETRIC_BYTES, kv[n].data(), kv[n].size(), rsa ? (void*) &pr : (void*) &p); if (st) bad({"P17"}, "importing a key fails"); key[u][n] = x;
            }
        }
    }
    string flag_text(uint64_t v) { string o; for (int i = 0; i < 64; i++) if (v >> i & 1) o += (i < 14 ? FLAGS[i] : ("bit" + std::to_string(i)).c_str()) + string(" "); return o; }
    void exec(const json& a) {
        string op = a["op"]; if (op == "tick") { env::now = a["now"].get<long>(); return; } string ok = a["ok"]; count[op + ":" + ok]++; memo.clear(); int u = a["u"]; as(u); bool tj = op == "typej";
        bytes b = tj ? typej(a) : soc(a); Guarded g(b); if (VERBOSE) fprintf(stderr, "%d %d CONTAINER %s\n", cur_beh, step, st_of(b).c_str()); sa_key k = 0x5a5a5a5a; const sa_key k0 = k; std::unique_ptr<Guarded> pm; void* par = nullptr; sa_import_parameters_typej pt; uint64_t oid = rnd.next(); size_t bn = b.size();
        if (tj) { auto hd = [&](const string& n) -> sa_key { if (key[u].count(n)) return key[u][n]; if (!released.empty() && below(2)) { bool live = false; for (auto& e : key[u]) live |= e.second == released[0]; if (!live) return released[0]; } return std::initializer_list<sa_key>{256, 1ull << 32, (sa_key) INVALID_HANDLE, 250}.begin()[below(4)]; }; pt.kcipher = hd(a["kc"]); pt.khmac = hd(a["kh"]); par = &pt; }
        else { string pn = a["par"]; if (pn != "null") { sa_import_parameters_soc ps; memset(&ps, 0, sizeof ps); size_t sz = sizeof ps, len = sz; ps.version = pn == "v1" ? 1 : pn == "v4" ? 4 : pn == "v2" ? 2 : 3; if (pn == "len") len = sz + 8 * (1 + below(3)) - 16 * below(2); if (pn == "len0") len = 0; if (pn == "tiny") len = 2 + below(40); if (len == sz && pn == "len") len = sz + 8; ps.length[0] = len >> 8; ps.length[1] = len; ps.object_id = oid; memset(&ps.default_rights, 0xff, sizeof ps.default_rights); bytes pb((uint8_t*) &ps, (uint8_t*) &ps + sz); pb.resize(pn == "len0" || pn == "v1" || pn == "v4" ? sz : len, 0); if (pb.size() < 2) pb.resize(2); pm.reset(new Guarded(pb)); par = pm->p(); } }
        sa_key_format fmt = tj ? SA_KEY_FORMAT_TYPEJ : SA_KEY_FORMAT_SOC; long l0 = env::live_allocs();
        auto f = [&]() -> sa_status { return PUB ? sa_key_import(&k, fmt, g.p(), bn, par) : ta_sa_key_import(&k, fmt, g.p(), bn, par, cs, &cu); };
        faulted("key_import", {"P05", "P11"}, f, []() { return string(); });
        if (!g.guards_ok() || (pm && !pm->guards_ok())) bad({"P11", "P05"}, "memory around the container or its parameters was written");
        if (PUB && !tj && a.contains("prov") && a["prov"]["to"] != "" && st != SA_STATUS_OK) provision(a["prov"], b, par, pm ? pm->n : 0); sa_status st0 = st;
        vector<string> P = {"P11"}; if (PUB) P.push_back("P14"); string why; for (auto& w : a["why"]) why += w.get<string>() + " ";
        if (st != SA_STATUS_OK) {
            if (ok == "y") bad(P, "a valid " + op + " container is refused with status " + std::to_string(st));
            long d = env::live_allocs() - l0; for (int i = 0; i < 2 && d > 0; i++) { l0 = env::live_allocs(); pre(); f(); post("key_import"); d = env::live_allocs() - l0; }
            if (d > 0) bad({"P05", "P11"}, "a refused container keeps " + std::to_string(d) + " allocation(s)");
            if (k != k0 && k != INVALID_HANDLE) { sa_header hd; sa_key kk = k; API(key_header, &hd, kk); bool known = false; for (auto& e : key[u]) known |= e.second == kk; if (st == SA_STATUS_OK && !known) bad({"P05", "P11"}, "a refused container left a key"); }
            return;
        }
        if (ok == "n") { vector<string> q = P; for (auto& w : a["why"]) { if (w == "rights") q.push_back("P01"); if (w == "handle") q.push_back("P03"); } bad(q, op + " container that must be refused (" + why + ") is accepted"); }
        if (PUB && !tj && a.contains("prov") && a["prov"]["to"] != "") { provision(a["prov"], b, par, pm ? pm->n : 0); st = st0; }
        if (ok == "y") check(a, k, oid); API(key_release, k); if (st) bad({"P04"}, "releasing a key fails"); released = {k};
    }
    // the same container handed over for provisioning: decided like the import, and nothing is left to the caller
    void provision(const json& q, const bytes& b, void* par, size_t pn) {
        sa_status keep = st; string to = q["to"], hole = q["hole"], ok = q["ok"]; count["provision:" + to + ":" + hole + ":" + ok]++;
        Guarded key(b), cert(rnd.get(1 + below(300))), second(hole == "second" ? rnd.get(1 + below(200)) : b); bool k0 = hole == "key0", kn = hole == "keyn", c0 = hole == "cert0", cn = hole == "certn"; unsigned s0 = hole == "second0" ? 0 : second.n;
        WidevineOemProvisioning w; PlayReadyProvisioning y; NetflixProvisioning n; memset(&w, 0, sizeof w); memset(&y, 0, sizeof y); memset(&n, 0, sizeof n); bool first = below(2);
        w.oemDevicePrivateKeyLength = k0 ? 0 : b.size(); w.oemDevicePrivateKey = kn ? nullptr : key.p(); w.oemDeviceCertificateLength = c0 ? 0 : cert.n; w.oemDeviceCertificate = cn ? nullptr : cert.p();
        y.modelType = PLAYREADY_MODEL_2K + below(2); y.privateKeyLength = k0 ? 0 : b.size(); y.privateKey = kn ? nullptr : key.p(); y.modelCertificateLength = c0 ? 0 : cert.n; y.modelCertificate = cn ? nullptr : cert.p();
        n.hmacKeyLength = k0 ? 0 : b.size(); n.hmacKey = kn ? nullptr : key.p(); n.wrappingKeyLength = s0; n.wrappingKey = second.p(); n.esnContainerLength = c0 ? 0 : cert.n; n.esnContainer = cn ? nullptr : cert.p();
        if (hole == "second" && to == "netflix" && first) { std::swap(n.hmacKey, n.wrappingKey); std::swap(n.hmacKeyLength, n.wrappingKeyLength); }
        const void* src = to == "widevine" ? (void*) &w : to == "playready" ? (void*) &y : (void*) &n; size_t len = to == "widevine" ? sizeof w : to == "playready" ? sizeof y : sizeof n; Guarded in(bytes((uint8_t*) src, (uint8_t*) src + len));
        sa_key_type_ta t = to == "widevine" ? WIDEVINE_OEM_PROVISIONING : to == "playready" ? PLAYREADY_MODEL_PROVISIONING : NETFLIX_PROVISIONING; if (hole == "apple") t = APPLE_MFI_PROVISIONING; if (hole == "fairplay") t = APPLE_FAIRPLAY_PROVISIONING; if (hole == "type") t = (sa_key_type_ta) std::initializer_list<int>{5, 6, 255, 256, 65536, -1}.begin()[below(6)];
        long l0 = env::live_allocs(); auto f = [&]() -> sa_status { return sa_key_provision_ta(t, hole == "in" ? nullptr : in.p(), hole == "len" ? 0 : len, hole == "par" ? nullptr : par); };
        if (below(8) == 0) faulted("key_provision_ta", {"P05", "P11"}, f, []() { return string(); }); else { pre(); st = f(); post("key_provision_ta"); } vector<string> P = {"P11", "P14"};
        if (!in.guards_ok() || !key.guards_ok() || !cert.guards_ok() || !second.guards_ok() || !in.unchanged() || !key.unchanged() || !cert.unchanged() || !second.unchanged()) bad({"P14", "P11", "P05"}, "provisioning writes to its input");
        if (st == SA_STATUS_OK && ok == "n") bad(P, "provisioning that must be refused is accepted (" + to + " " + hole + ")");
        if (st != SA_STATUS_OK && ok == "y") bad(P, "provisioning a valid container is refused with status " + std::to_string(st) + " (" + to + ")");
        if (q["why"] == "unsupported" && st != SA_STATUS_OPERATION_NOT_SUPPORTED) bad({"P14"}, "provisioning that is not supported answers " + std::to_string(st));
        long d = env::live_allocs() - l0; for (int i = 0; i < 2 && d > 0; i++) { l0 = env::live_allocs(); pre(); f(); post("key_provision_ta"); d = env::live_allocs() - l0; }
        if (d > 0) bad({"P05", "P11", "P14"}, "provisioning (" + to + " " + hole + ") keeps " + std::to_string(d) + " allocation(s)");
        // the keys of this session are all still there, and no other
        for (auto& e : key_now()) { sa_header hd; API(key_header, &hd, e); if (st) bad({"P05", "P11", "P14"}, "provisioning (" + to + " " + hole + ") destroys a key of the caller"); }
        st = keep;
    }
    vector<uint64_t> key_now() { vector<uint64_t> v; for (auto& e : key[1]) v.push_back(e.second); return v; }
    void check(const json& a, sa_key k, uint64_t oid) {
        bool tj = a["op"] == "typej"; const json& c = a["c"]; const json& r = a["r"]; const json& ks = a["key"]; sa_header hd; memset(&hd, 0x5a, sizeof hd); API(key_header, &hd, k); if (st) bad({"P11", "P17"}, "the header of an imported key is refused"); string e; vector<string> P = {"P11"};
        int ty = ks["t"] == "sym" ? 0 : ks["t"] == "ec" ? 1 : 2; if (memcmp(hd.magic, "sak0", 4) || hd.type != ty || hd.size != ks["n"].get<size_t>() || (ty == 1 && hd.type_parameters.curve != sa_cv(ks["cv"]))) bad(P, "imported key reports type " + std::to_string(hd.type) + " size " + std::to_string(hd.size));
        char id[64]; memset(id, 0, 64); if (tj) { const Val& v = field("id", c["f"]["id"], false, c, a["kc"]); memcpy(id, v.str.data(), v.str.size()); } else if (a["par"] != "null") for (int i = 0; i < 8; i++) id[i] = oid >> (56 - 8 * i);
        uint64_t fl = flags_of(r["f"]), cf = flags_of(r["c"]), nb = time_val(r["nb"], !tj), na = r["na"].get<long>() >= 5000 && tj ? 253402300799ull : time_val(r["na"], true);
        if (hd.rights.usage_flags != fl || hd.rights.child_usage_flags != cf) bad(P, "imported key has the rights [" + flag_text(hd.rights.usage_flags) + "] children [" + flag_text(hd.rights.child_usage_flags) + "] and not [" + flag_text(fl) + "] children [" + flag_text(cf) + "]");
        if (hd.rights.not_before != nb || hd.rights.not_on_or_after != na) bad(P, "imported key has the window " + std::to_string(hd.rights.not_before) + ".." + std::to_string(hd.rights.not_on_or_after) + " and not " + std::to_string(nb) + ".." + std::to_string(na));
        if (memcmp(id, hd.rights.id, 64)) bad(P, "imported key has another identifier");
        sa_uuid l[32]; memset(l, 0, sizeof l); const json& ta = c["f"]["ta"]; bool all = ta["k"] == "abs" || (!tj && ta["v"] == "none"); if (all) memset(l[0].id, 0xff, 16); else { const Val& v = field("ta", ta, !tj, c, ""); for (size_t i = 0; i < v.list.size(); i++) memcpy(l[i].id, v.list[i].data(), 16); }
        if (memcmp(l, hd.rights.allowed_tas, sizeof l)) bad(P, "imported key has another list of applications");
        if (nb >= na) return; uint64_t now0 = env::now; if (BASE_T + env::now < nb) env::now = nb - BASE_T; if (BASE_T + env::now >= na) env::now = na - 1 - BASE_T;
        bytes val = tj ? field("key", c["f"]["key"], false, c, a["kc"]).raw : plain_key(c["f"]["key"]["v"]); bool may = a["may"]; bytes o(2048); size_t n = o.size();
        if (ty == 0) API(key_digest, o.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256); else API(key_get_public, o.data(), &n, k); env::now = now0;
        if (may && st) bad({"P11", "P01"}, "using an imported key is refused with status " + std::to_string(st)); if (!may && st == SA_STATUS_OK) bad({"P01", "P11"}, "an application that is not entitled uses an imported key"); if (!may) return; o.resize(n);
        if (ty == 0 ? o != ref::digest("sha256", val) : [&]() { const uint8_t* p = val.data(); pkey mine = own(d2i_AutoPrivateKey(nullptr, &p, val.size())), got = ref::from_spki(o); ERR_clear_error(); return !mine || !got || EVP_PKEY_eq(mine.get(), got.get()) != 1; }()) bad(P, "the imported key is not the key in the container");
    }
    void run(const json& steps) {
        env::now = 100; env::video = {true, 0, 0, 0, 0, 0}; env::video_poll_ok = true; uuid_place = PUB ? 0 : (int) rnd.below(16);
        try {
            for (size_t i = 0; i < steps.size(); i++) { const json& a = steps[i]; string op = a["op"]; if (op == "end") break; at(i, op); if (op == "keys") { setup(a["keys"]); continue; } exec(a); }
            step = steps.size();
        } catch (Stop&) {}
        if (dead) return;
        try { if (PUB) { as(1); for (auto& k : key[1]) API(key_release, k.second); } else for (int u = 1; u <= 2; u++) if (h[u]) { cu = uuid_of(u); RAW("close", ta_sa_close(h[u], &cu)); } } catch (Stop&) {}
    }
};
int main(int argc, char** argv) {
    return runner_main<Run>(argc, argv, {"P05", "P11"});
}
