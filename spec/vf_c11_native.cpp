#include "mvrxchange/mvrxchange_prefix.h"
#include "mvrxchange/mvrxchange_message.h"
#include "vf.h"
using nlohmann::json;
extern uint64_t vf_native_rnd();
static json text() { static const size_t n[] = { 0, 1, 36, 36, 47, 1022, 1023, 1024, 1500, 5000 }; size_t k = n[vf_native_rnd() % 10]; return k == 36 ? std::string("12345678-1234-1234-1234-123456789abc") : std::string(k, 'a'); }
static json other() { switch (vf_native_rnd() % 6) { case 0: return nullptr; case 1: return 3; case 2: return json::array(); case 3: return json::object(); case 4: return true; default: return "x"; } }
static void put(json& j, const char* k, json v) { switch (vf_native_rnd() % 12) { case 0: return; case 1: j[k] = other(); return; default: j[k] = v; } }
static json commit()
{
	json j = json::object();
	put(j, "Comment", text()); put(j, "FileName", text()); put(j, "verMajor", 1); put(j, "verMinor", 6); put(j, "FileSize", 77); put(j, "FileUUID", text()); put(j, "StationUUID", text());
	put(j, "ForStationsUUID", json::array({ text() })); put(j, "Type", "MVR_COMMIT");
	return j;
}
extern "C" void vf_json_body(MVRxchangeNetwork::MVRxchangePacket* p)
{
	static const char* t[] = { "MVR_JOIN", "MVR_JOIN_RET", "MVR_COMMIT", "MVR_COMMIT_RET", "MVR_REQUEST", "MVR_REQUEST_RET", "MVR_LEAVE", "MVR_LEAVE_RET", "X" };
	json j = commit();
	put(j, "Type", t[vf_native_rnd() % 9]); put(j, "Provider", text()); put(j, "StationName", text()); put(j, "Message", text()); put(j, "OK", "true"); put(j, "FromStationUUID", vf_native_rnd() % 2 ? json::array({ text(), "12345678-1234-1234-1234-123456789abc" }) : text());
	put(j, "Commits", json::array({ commit() }));
	std::string s = vf_native_rnd() % 10 ? j.dump() : "{";
	p->SetBody(s.size(), (char*)s.data());
}
