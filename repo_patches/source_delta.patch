From b12a35035f03b618ff7988aab9ae855893f4f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 01/13] fix: HistorySubset returns an empty range when the end
 precedes the start

The end was searched from the beginning of the history, so an interval
whose end lies before its start gave first > second, and copying the
range threw std::length_error.
---
 base/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..9eb073e 100644
--- a/base/base.h
+++ b/base/base.h
@@ -62,7 +62,7 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           : history.begin();
   const auto record_end =
       end_timestamp_sec > 0
-          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
+          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
   return {record_begin, record_end};
-- 
2.43.0


From 0c6257214527b533eff3a0a55797bd9dc23dcc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 02/13] fix: GetPriceHistoryGaps never lists more than top_n
 gaps

The leading gap was pushed without trimming the queue, so with top_n 0
and a single record it was reported although no gap was requested.
---
 base/history.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 562ed20..9747fe9 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -32,6 +32,9 @@ std::vector<HistoryGap> GetPriceHistoryGaps(PriceHistory::const_iterator begin,
   std::vector<HistoryGap> history_gaps;
   if (start_timestamp_sec > 0) {
     gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
+    if (gap_queue.size() > top_n) {
+      gap_queue.pop();
+    }
   }
   auto it_prev = end;
   for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From 0843884c1fd758dcacba18315d8601731805516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 03/13] fix: sliding window variance is never negative

---
 indicators/util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..30cdba0 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,10 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  // Rounding errors can make the difference slightly negative.
+  return std::max<float>(
+      0.0f, (std::pow(current_value_, 2) + window_sum_2_) / window_size -
+                std::pow(mean, 2));
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From 7e71def9800ebeb8399c63b7e300495879d48db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 04/13] fix: an executed order is not executed again after a
 zero-volume tick

---
 eval/eval.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..9ba7edb 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -53,8 +53,10 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
   }
   int prev_side_input_index = -1;
   std::vector<Order> orders;
+  std::vector<Order> active_orders;
   constexpr size_t kEmittedOrdersReserve = 8;
   orders.reserve(kEmittedOrdersReserve);
+  active_orders.reserve(kEmittedOrdersReserve);
   int total_executed_orders = 0;
   Volatility base_volatility(/*window_size=*/0,
                              /*period_size_sec=*/kSecondsPerDay);
@@ -86,6 +88,7 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
     // The trader was updated on the previous OHLC tick T[i-1] and emitted
     // "orders". There are no other active orders on the exchange.
     // Execute (or cancel) "orders" on the current OHLC tick T[i].
+    active_orders.clear();
     for (const Order& order : orders) {
       const bool success =
           account.ExecuteOrder(account_config, order, ohlc_tick);
@@ -95,8 +98,12 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
         if (logger != nullptr) {
           logger->LogExchangeState(ohlc_tick, account, order);
         }
+      } else {
+        active_orders.push_back(order);
       }
     }
+    // The executed orders are no longer active on the exchange.
+    orders.swap(active_orders);
     if (ohlc_tick.volume() == 0) {
       // Zero volume OHLC tick indicates a gap in a price history. Such gap
       // could have been caused by an unresponsive exchange (or its API).
-- 
2.43.0


From 7708831e522d8357861eaa0bb43edce98c2d40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 05/13] fix: evaluation of a single period without ticks
 terminates

---
 eval/eval.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eval/eval.cc b/eval/eval.cc
index 9ba7edb..590a32c 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -171,6 +171,9 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() <= 0) {
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
-- 
2.43.0


From 8d1c8bf4d03040b16712171b9ad7ef659e5027e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 06/13] fix: rebalancing limit order prices account for the
 base balance

---
 traders/rebalancing_trader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..2acc218 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -40,8 +40,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
     order.set_base_amount(market_buy_base_amount);
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
-      const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+      const float sell_price = (alpha * (1 + epsilon) * quote_balance) /
+                               ((1 - alpha * (1 + epsilon)) * base_balance);
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -52,8 +52,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
         sell_order.set_price(sell_price);
       }
     }
-    const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+    const float buy_price = (alpha * (1 - epsilon) * quote_balance) /
+                            ((1 - alpha * (1 - epsilon)) * base_balance);
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
-- 
2.43.0


From 6d165783e640dda8279a2470c47a5c771d53f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:49 +0000
Subject: [PATCH 07/13] fix: CSV import rejects rows that cannot be parsed
 completely

---
 convert.cc | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/convert.cc b/convert.cc
index fd6d36b..9d60552 100644
--- a/convert.cc
+++ b/convert.cc
@@ -81,13 +81,22 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
+    const int num_parsed = std::sscanf(line.c_str(), "%lld,%f,%f",
+                                       &timestamp_sec, &price, &volume);
+    if (num_parsed < 1) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Cannot parse the timestamp on the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
     if (end_timestamp_sec > 0 && timestamp_sec >= end_timestamp_sec) {
       break;
     }
+    if (num_parsed < 3) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Cannot parse the price record on the line %d: %s", row, line));
+    }
     if (timestamp_sec <= 0 || timestamp_sec < timestamp_sec_prev) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
@@ -137,14 +146,23 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                &timestamp_sec, &open, &high, &low, &close, &volume);
+    const int num_parsed =
+        std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close, &volume);
+    if (num_parsed < 1) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Cannot parse the timestamp on the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
     if (end_timestamp_sec > 0 && timestamp_sec >= end_timestamp_sec) {
       break;
     }
+    if (num_parsed < 6) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Cannot parse the OHLC tick on the line %d: %s", row, line));
+    }
     if (timestamp_sec <= 0 || timestamp_sec < timestamp_sec_prev) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
@@ -217,6 +235,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     while (iss >> signal) {
       side_history.back().add_signal(signal);
     }
+    if (!iss.eof()) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Cannot parse the signals on the line %d: %s", row, line));
+    }
     if (num_signals == 0) {
       num_signals = side_history.back().signal_size();
     }
-- 
2.43.0


From 6ebffa7dca59b3d5bfec8272ca026aacb6313b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:49 +0000
Subject: [PATCH 08/13] fix: history import rejects values that are not numbers

---
 convert.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/convert.cc b/convert.cc
index 9d60552..c89fc8f 100644
--- a/convert.cc
+++ b/convert.cc
@@ -101,11 +101,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!(price > 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!(volume >= 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -167,12 +167,12 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
-        low > high || low > close || high < open || high < close) {
+    if (!(open > 0 && high > 0 && low > 0 && close > 0 && low <= open &&
+          low <= high && low <= close && high >= open && high >= close)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!(volume >= 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -311,10 +311,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const PriceRecord& price_record) -> absl::Status {
-        if (price_record.price() <= 0) {
+        if (!(price_record.price() > 0)) {
           return absl::InvalidArgumentError("Invalid price");
         }
-        if (price_record.volume() < 0) {
+        if (!(price_record.volume() >= 0)) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
@@ -329,16 +329,16 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const OhlcTick& ohlc_tick) -> absl::Status {
-        if (ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
-            ohlc_tick.low() <= 0 || ohlc_tick.close() <= 0 ||
-            ohlc_tick.low() > ohlc_tick.open() ||
-            ohlc_tick.low() > ohlc_tick.high() ||
-            ohlc_tick.low() > ohlc_tick.close() ||
-            ohlc_tick.high() < ohlc_tick.open() ||
-            ohlc_tick.high() < ohlc_tick.close()) {
+        if (!(ohlc_tick.open() > 0 && ohlc_tick.high() > 0 &&
+              ohlc_tick.low() > 0 && ohlc_tick.close() > 0 &&
+              ohlc_tick.low() <= ohlc_tick.open() &&
+              ohlc_tick.low() <= ohlc_tick.high() &&
+              ohlc_tick.low() <= ohlc_tick.close() &&
+              ohlc_tick.high() >= ohlc_tick.open() &&
+              ohlc_tick.high() >= ohlc_tick.close())) {
           return absl::InvalidArgumentError("Invalid OHLC prices");
         }
-        if (ohlc_tick.volume() < 0) {
+        if (!(ohlc_tick.volume() >= 0)) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
-- 
2.43.0


From a675c56b492aa1a91946b7ba55df2a9baf93278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:49 +0000
Subject: [PATCH 09/13] fix: corrupt compressed data between two messages is an
 error

---
 util/proto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..823c59d 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -45,6 +45,10 @@ absl::Status ReadDelimitedMessagesFromIStream(
     bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
+#ifdef HAVE_ZLIB
+      // Corrupt compressed data also ends the decompressed stream.
+      clean_eof = clean_eof && gzip_stream.ZlibErrorCode() >= 0;
+#endif
       if (clean_eof) {
         return absl::OkStatus();
       }
-- 
2.43.0


From 1ed09336b3e4bc87c3985284a36e545324bda227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:57 +0000
Subject: [PATCH 10/13] fix: an empty side history provides no signals

---
 base/side_input.cc | 3 ++-
 base/side_input.h  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/side_input.cc b/base/side_input.cc
index 9a74ef5..d57df27 100644
--- a/base/side_input.cc
+++ b/base/side_input.cc
@@ -5,7 +5,8 @@
 namespace trader {
 
 SideInput::SideInput(const SideHistory& side_history)
-    : num_signals_(side_history.front().signal_size()) {
+    : num_signals_(side_history.empty() ? 0
+                                        : side_history.front().signal_size()) {
   timestamp_sec_history_.reserve(side_history.size());
   data_.reserve(side_history.size() * num_signals_);
   int64_t prev_timestamp_sec = 0;
diff --git a/base/side_input.h b/base/side_input.h
index 9ad08b7..49a760f 100644
--- a/base/side_input.h
+++ b/base/side_input.h
@@ -10,7 +10,9 @@ namespace trader {
 // Side history wrapper for fast thread-safe read-only access.
 class SideInput {
  public:
-  // Constructor. Expects non-empty side_history with increasing timestamps.
+  // Constructor. Expects side_history with increasing timestamps.
+  // An empty side_history (e.g. with no records within the evaluated period)
+  // never provides any signals.
   explicit SideInput(const SideHistory& side_history);
   virtual ~SideInput() {}
 
-- 
2.43.0


From de8b327fc269c1876c7d646c7cb3afc67e5a0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:36 +0000
Subject: [PATCH 11/13] fix: files that cannot be read are errors

---
 convert.cc   | 12 ++++++++++++
 util/proto.h |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/convert.cc b/convert.cc
index c89fc8f..2c1d1c3 100644
--- a/convert.cc
+++ b/convert.cc
@@ -115,6 +115,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     price_history.back().set_price(price);
     price_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", price_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -185,6 +189,10 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
     ohlc_history.back().set_close(close);
     ohlc_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(absl::StrFormat(
       "Loaded %d OHLC ticks in %.3f seconds", ohlc_history.size(),
       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -247,6 +255,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
           "Invalid number of signals on the line %d: %s", row, line));
     }
   }
+  if (infile.bad()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", side_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
diff --git a/util/proto.h b/util/proto.h
index 823c59d..3c5f10c 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -49,6 +49,8 @@ absl::Status ReadDelimitedMessagesFromIStream(
       // Corrupt compressed data also ends the decompressed stream.
       clean_eof = clean_eof && gzip_stream.ZlibErrorCode() >= 0;
 #endif
+      // So does an input stream that cannot be read.
+      clean_eof = clean_eof && !stream.bad();
       if (clean_eof) {
         return absl::OkStatus();
       }
-- 
2.43.0


From f74a1e14fa5d587772e540016af2991614251357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:45 +0000
Subject: [PATCH 12/13] fix: history files that cannot be written completely
 are errors

---
 util/proto.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index 3c5f10c..1fa0a57 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -146,7 +146,13 @@ absl::Status WriteDelimitedMessagesToFile(InputIterator first,
     return absl::InvalidArgumentError(
         absl::StrFormat("Cannot open the input file: %s", file_name));
   }
-  return WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  const absl::Status status =
+      WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  if (status.ok() && !out_fstream.flush()) {
+    return absl::DataLossError(
+        absl::StrFormat("Cannot write the output file: %s", file_name));
+  }
+  return status;
 }
 
 }  // namespace trader
-- 
2.43.0


From 88d6c969953d891bd9b475a49d6dfdbb4b2f3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:52 +0000
Subject: [PATCH 13/13] fix: log files that cannot be written are errors

---
 trader.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trader.cc b/trader.cc
index e8675fb..435bfe3 100644
--- a/trader.cc
+++ b/trader.cc
@@ -120,6 +120,14 @@ absl::StatusOr<std::unique_ptr<std::ofstream>> OpenLogFile(
   return log_stream;
 }
 
+// Flushes the log file, so that a log that cannot be written is an error.
+absl::Status FlushLogFile(std::ofstream* log_stream) {
+  if (log_stream != nullptr && !log_stream->flush()) {
+    return absl::DataLossError("Cannot write the log file");
+  }
+  return absl::OkStatus();
+}
+
 void PrintBatchEvalResults(const std::vector<EvaluationResult>& eval_results,
                            size_t top_n) {
   const size_t eval_count = std::min(top_n, eval_results.size());
@@ -231,6 +239,8 @@ int main(int argc, char* argv[]) {
         EvaluateTrader(account_config, eval_config, ohlc_history,
                        side_input.get(), *trader_emitter, &logger);
     PrintTraderEvalResult(eval_result);
+    CheckOk(FlushLogFile(exchange_log_stream_status.value().get()));
+    CheckOk(FlushLogFile(trader_log_stream_status.value().get()));
   }
   LogInfo(
       absl::StrFormat("\nEvaluated in %.3f seconds",
-- 
2.43.0

