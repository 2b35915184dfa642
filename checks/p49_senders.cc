// P49: the senders tell a success from a refusal, and both from a disaster.
#ifdef CURRENT_CI
#undef CURRENT_CI  // Which would have turned the senders into stubs.
#endif

#include <mutex>
#include <string>
#include <vector>

#include "pbt.h"

#include "port.h"
#include "blocks/http/api.h"
#include "integrations/adwords/conversion_tracking.h"
#include "integrations/onesignal/ios_notifications_sender.h"
#include "minijson.h"

PBT_CHECK("P49", "fault_enumeration",
          "A case sends a random history of notifications or events to a local stand-in for the third party, which responds with "
          "success, a refusal, an ambiguity, garbage, another HTTP code, or not at all, and compares the requests made and the "
          "outcome reported with what the sender documents. Non-trivial: at least one response is neither a success nor absent.");

namespace {

using namespace current::integrations;

struct Server {
  current::net::ReservedLocalPort reserved = current::net::ReserveLocalPort();
  const uint16_t port = reserved;
  current::http::HTTPServerPOSIX* http = &HTTP(std::move(reserved));
};
Server& TheServer() {
  static Server server;
  return server;
}

struct Seen {
  std::string method, path, body, content_type;
};

PBT_PROP(onesignal, o.weight = 3) {
  auto& server = TheServer();
  const std::string app_id = s.FromN("abc019-", 1, 12);
  std::vector<Seen> seen;
  std::string response_body;
  auto response_code = HTTPResponseCode.OK;
  const std::string golden = "https://onesignal.com/api/v1/notifications\n";
  std::string check_response = golden;
  if (s.Chance(1, 8)) check_response = s.Pick({"", "https://onesignal.com/api/v1/notifications", "Need parameter.\n", "https://www.googleadservices.com/\n"});
  auto scope = server.http->Register("/.current", [check_response](Request r) { r(std::string(check_response)); });
  scope += server.http->Register("/", [&](Request r) {
    seen.push_back(Seen{r.method, r.url.path, r.body, r.headers.GetOrDefault("Content-Type", "")});
    const std::string copy = response_body;  // As the next one may be on its way before this one is done with.
    r(copy, response_code);
  });
  std::unique_ptr<onesignal::IOSPushNotificationsSender> sender;
  const bool good = check_response == golden;
  bool thrown = false;
  try {
    sender = std::make_unique<onesignal::IOSPushNotificationsSender>(app_id, server.port);
  } catch (const onesignal::OneSignalInitializationException&) {
    thrown = true;
  }
  s.Note("initialization: " + pbt::Esc(check_response));
  s.Eq(!good, thrown, "initialization");
  if (!good) return;
  const size_t n = s.Size(1, 5);
  for (size_t i = 0; i < n; ++i) {
    const std::string recipient = s.FromN("abc019-", 1, 12);
    const std::string message = s.Chance(1, 3) ? "" : s.Utf8(20);
    const int32_t counter = s.Bool() ? 0 : int32_t(s.Int(1, 100));
    const size_t kind = s.Size(0, 12);
    response_code = HTTPResponseCode.OK;
    enum class Outcome { True, False, Throws } outcome = Outcome::True;
    const int64_t many = s.Int(2, 1000);
    switch (kind) {
      case 0: case 1: case 2: response_body = "{\"id\":\"x\",\"recipients\":1}"; break;
      case 3: response_body = "{\"recipients\":1,\"errors\":[\"a warning\"]}"; break;
      case 4: response_body = "{\"id\":\"\",\"recipients\":0}"; outcome = Outcome::False; break;
      case 5: response_body = "{\"errors\":[\"All included players are not subscribed\"]}"; outcome = Outcome::False; response_code = s.Bool() ? HTTPResponseCode.OK : HTTPResponseCode.BadRequest; break;
      case 6: response_body = "{\"id\":\"x\",\"recipients\":" + std::to_string(many) + "}"; outcome = Outcome::Throws; break;
      case 7: response_body = "{\"id\":\"x\"}"; outcome = Outcome::Throws; break;
      case 8: response_body = "{}"; outcome = Outcome::Throws; break;
      case 9: response_body = s.Pick({"", "Bad Gateway", "<html>", "[]", "{\"recipients\":\"one\"}", "{\"recipients\":1", "null"}); outcome = Outcome::Throws; break;
      case 10: response_body = "{\"errors\":[]}"; outcome = Outcome::False; break;
      case 11: response_body = "<h1>500</h1>"; response_code = HTTPResponseCode.InternalServerError; outcome = Outcome::Throws; break;
      default: response_body = "{\"errors\":null,\"recipients\":null,\"id\":\"x\"}"; outcome = Outcome::Throws;
    }
    const bool nothing = message.empty() && !counter;
    if (nothing) outcome = Outcome::True;
    s.Note(pbt::Esc(recipient) + ' ' + pbt::Esc(message) + ' ' + std::to_string(counter) + " -> " + pbt::Esc(response_body));
    if (outcome != Outcome::True) s.NonTrivial();
    seen.clear();
    Outcome actual;
    std::string description;
    try {
      actual = (message.empty() && s.Bool() ? sender->Push(recipient, counter) : sender->Push(recipient, message, counter)) ? Outcome::True : Outcome::False;
    } catch (const onesignal::OneSignalPushNotificationException& e) {
      actual = Outcome::Throws;
      description = e.DetailedDescription();
    }
    s.Eq(int(outcome), int(actual), "outcome");
    if (actual == Outcome::Throws) s.Check(description.find("OneSignal iOS push error") != std::string::npos, "description");
    s.Eq(nothing ? size_t(0) : size_t(1), seen.size(), "requests");
    if (!nothing) {
      s.Eq(std::string("POST"), seen[0].method, "method");
      s.Eq(std::string("/"), seen[0].path, "path");
      s.Eq(std::string("application/json"), seen[0].content_type.substr(0, 16), "content_type");
      mj::J j;
      s.Check(mj::Parse(seen[0].body, j), "json");
      std::string expected = "{\"app_id\":" + mj::Print(mj::J::S(app_id)) + ",\"include_player_ids\":[" + mj::Print(mj::J::S(recipient)) + "]";
      if (!message.empty()) {
        expected += ",\"contents\":{\"en\":" + mj::Print(mj::J::S(message)) + "}";
      }
      if (counter) expected += ",\"ios_badgeType\":\"Increase\",\"ios_badgeCount\":" + std::to_string(counter);
      if (message.empty()) expected += ",\"content_available\":true";
      expected += "}";
      mj::J e;
      s.Check(mj::Parse(expected, e), "harness");
      s.Eq(mj::Print(e), mj::Print(j), "request");
    }
  }
}

PBT_PROP(onesignal_is_down, o.weight = 1) {
  // With no one there a sender can not be made; when the other side is gone since, nothing fatal happens.
  auto& server = TheServer();
  s.NonTrivial();
  const std::string message = s.Ascii(10) + ".";
  uint16_t port;
  {
    auto reserved = current::net::ReserveLocalPort();
    port = reserved;
  }
  bool thrown = false;
  if (s.Bool()) {
    s.Note("from the very beginning");
    try {
      onesignal::IOSPushNotificationsSender sender("app", port);
    } catch (const onesignal::OneSignalInitializationException&) {
      thrown = true;
    }
    s.Check(thrown, "initialization");
    thrown = false;
    try {
      adwords::conversion_tracking::AdWordsMobileConversionEventsSender sender(adwords::conversion_tracking::AdWordsConversionTrackingParams(), port);
    } catch (const adwords::AdWordsInitializationException&) {
      thrown = true;
    }
    s.Check(thrown, "adwords_initialization");
  } else {
    s.Note("afterwards");
    std::unique_ptr<onesignal::IOSPushNotificationsSender> sender;
    std::thread t;
    {
      // Serves one request, and closes the port.
      auto reserved = current::net::ReserveLocalPort();
      port = reserved;
      current::net::Socket socket(std::move(reserved));
      t = std::thread([&socket] {
        current::net::HTTPServerConnection connection(socket.Accept());
        connection.SendHTTPResponse(std::string("https://onesignal.com/api/v1/notifications\n"));
      });
      sender = std::make_unique<onesignal::IOSPushNotificationsSender>("app", port);
      t.join();
    }
    s.Check(!sender->Push("recipient", message), "sent_to_no_one");
  }
  static_cast<void>(server);
}

PBT_PROP(adwords_events, o.weight = 2) {
  auto& server = TheServer();
  adwords::conversion_tracking::AdWordsConversionTrackingParams params;
  params.conversion_id = s.FromN("0123456789", 1, 10);
  params.label = s.FromN("abcXYZ019_-", 1, 10);
  params.bundleid = s.FromN("abc.", 1, 10);
  params.idtype = s.Pick({"idfa", "advertisingid"});
  std::vector<std::string> seen;
  auto response_code = HTTPResponseCode.OK;
  const std::string golden = "https://www.googleadservices.com/\n";
  std::string check_response = golden;
  if (s.Chance(1, 8)) check_response = s.Pick({"", "https://www.googleadservices.com/", "Need parameter.\n", "https://onesignal.com/api/v1/notifications\n"});
  auto scope = server.http->Register("/.current/googleadservices", [check_response](Request r) { r(std::string(check_response)); });
  scope += server.http->Register("/googleadservices/pagead/conversion/" + params.conversion_id, [&](Request r) {
    std::string text = r.method;
    for (const char* key : {"label", "bundleid", "idtype", "rdid"}) text += std::string(" ") + key + '=' + r.url.query.get(key, "<none>");
    seen.push_back(text);
    r("", response_code);
  });
  bool thrown = false;
  std::unique_ptr<adwords::conversion_tracking::AdWordsMobileConversionEventsSender> sender;
  try {
    sender = std::make_unique<adwords::conversion_tracking::AdWordsMobileConversionEventsSender>(params, server.port);
  } catch (const adwords::AdWordsInitializationException&) {
    thrown = true;
  }
  s.Note("initialization: " + pbt::Esc(check_response));
  s.Eq(check_response != golden, thrown, "initialization");
  if (thrown) return;
  const size_t n = s.Size(1, 5);
  for (size_t i = 0; i < n; ++i) {
    const std::string rdid = s.FromN("0123456789ABCDEF-", 1, 36);
    const size_t kind = s.Size(0, 6);
    response_code = kind <= 2 ? HTTPResponseCode.OK : kind == 3 ? HTTPResponseCode.BadRequest : kind == 4 ? HTTPResponseCode.NotFound : kind == 5 ? HTTPResponseCode.InternalServerError : HTTPResponseCode.Accepted;
    s.Note(rdid + ' ' + std::to_string(kind));
    if (kind > 2) s.NonTrivial();
    seen.clear();
    s.Eq(kind <= 2, sender->SendConversionEvent(rdid), "sent");
    s.Eq(size_t(1), seen.size(), "requests");
    s.Eq("GET label=" + params.label + " bundleid=" + params.bundleid + " idtype=" + params.idtype + " rdid=" + rdid, seen[0], "request");
  }
}

}  // namespace
