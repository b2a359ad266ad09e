#include <sstream>
#include <string>
#include "absl/strings/str_format.h"
#include "base/account.h"
#include "base/base.h"
#include "logging/csv_logger.h"
#include "vp.h"
using namespace trader;
#ifndef N_ROWS
#define N_ROWS 2
#endif
static const float VMAX = 1e12f;
static const char* const kTypes[] = {"MARKET", "STOP", "LIMIT"};
static const char* const kSides[] = {"BUY", "SELL"};

static float num(const std::string& p, const char* n) { return vp_f32(p + n, -VMAX, VMAX); }
static std::string d3(float v) { return absl::StrFormat("%.3f", v); }

// c43: a sequence of log calls against the text built from the documented columns
VP_ENTRY(c43_csv) {
  const bool ex_null = vp_choice("ex_null", 2) == 1;
  const bool tr_null = vp_choice("tr_null", 2) == 1;
  std::ostringstream ex, tr;
  std::string want_ex, want_tr;
  {
    CsvLogger csv(ex_null ? nullptr : &ex, tr_null ? nullptr : &tr);
    Logger& logger = csv;
    const int n = static_cast<int>(vp_choice("n", N_ROWS + 1));
    for (int i = 0; i < n; ++i) {
      const std::string p = vp_name("r", i) + "_";
      const int kind = static_cast<int>(vp_choice(p + "kind", 3));
      if (kind == 2) {
        static const std::string text = "x,%d;\tstate 1.5,";
        const int from = static_cast<int>(vp_choice(p + "from", 2));
        const int len = static_cast<int>(vp_choice(p + "len", 3)) * 4;
        const std::string state = text.substr(from, len);
        logger.LogTraderState(absl::string_view(text.data() + from, len));
        want_tr += state + "\n";
        continue;
      }
      OhlcTick t;
      const int64_t ts = vp_i64(p + "ts", 0, 8000000000LL);
      t.set_timestamp_sec(ts);
      const float o = num(p, "open"), h = num(p, "high"), l = num(p, "low"), c = num(p, "close"), v = num(p, "volume");
      t.set_open(o); t.set_high(h); t.set_low(l); t.set_close(c); t.set_volume(v);
      Account a;
      const float base = num(p, "base"), quote = num(p, "quote"), fee = num(p, "fee");
      a.base_balance = base; a.quote_balance = quote; a.total_fee = fee;
      a.base_unit = num(p, "base_unit"); a.quote_unit = num(p, "quote_unit");
      a.market_liquidity = num(p, "liquidity"); a.max_volume_ratio = num(p, "ratio");
      std::string row = absl::StrFormat("%d", ts) + "," + d3(o) + "," + d3(h) + "," + d3(l) + "," + d3(c) + "," + d3(v) + "," +
                        d3(base) + "," + d3(quote) + "," + d3(fee) + ",";
      if (kind == 0) {
        logger.LogExchangeState(t, a);
        row += ",,,,";
      } else {
        Order q;
        // every shape of order in the last row, two shapes before it
        const bool last = i == n - 1;
        const int shape = last ? 0 : static_cast<int>(vp_choice(p + "shape", 2));
        const int type = last ? static_cast<int>(vp_choice(p + "type", 3)) : 2 * shape;
        const int side = last ? static_cast<int>(vp_choice(p + "side", 2)) : 1 - shape;
        q.set_type(type == 0 ? Order::MARKET : type == 1 ? Order::STOP : Order::LIMIT);
        q.set_side(side == 0 ? Order::BUY : Order::SELL);
        const int amount = last ? static_cast<int>(vp_choice(p + "amount", 3)) : 1 + shape;
        std::string ba, qa, pr;
        if (amount) {
          const float x = num(p, "amt");
          if (amount == 1) { q.set_base_amount(x); ba = d3(x); } else { q.set_quote_amount(x); qa = d3(x); }
        }
        if (last ? vp_choice(p + "priced", 2) == 1 : shape == 1) {
          const float x = vp_f32(p + "price", 1e-6f, VMAX);
          q.set_price(x);
          pr = d3(x);
        }
        logger.LogExchangeState(t, a, q);
        row += std::string(kTypes[type]) + "," + kSides[side] + "," + ba + "," + qa + "," + pr;
      }
      want_ex += row + "\n";
    }
    if (n == N_ROWS) vp_cover("full");
  }
  vp_same_text(ex.str(), ex_null ? std::string() : want_ex, "exchange log");
  vp_same_text(tr.str(), tr_null ? std::string() : want_tr, "trader log");
}
