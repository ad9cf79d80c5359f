From 7cece4a997a740aa8a983af94ca8eacaa79fe39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 01/16] fix: keep the columns of a line together when the
 output is not coloured

---
 src/cmds/show_net.rs | 1 +
 src/console.rs       | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..3f44c24 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -120,6 +120,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
+            println!();
         }
     }
 }
diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
-- 
2.43.0


From e7f08f96bce877281fa229a917b9adb69fc782f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 02/16] fix: derange ranges that reach the end of the address
 space

---
 src/cmds/derange.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..0bb8774 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -65,12 +65,22 @@ pub fn range_to_subnets<A: IpAddress>(
     // start with the full mask
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
+        let current_prefix = current_subnet.cidr_prefix().unwrap();
+        if current_prefix == 0 {
+            // the subnet spans the whole address space and cannot be enlarged
+            ret.push(current_subnet);
+            break;
+        }
+
         // try enlarging the subnet
-        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
+        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_prefix - 1);
         if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(next_addr) => next_addr,
+                None => break, // we have reached the end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
         } else {
             // anchor the growth and continue
-- 
2.43.0


From 49cdce4ad9295c5cfdaaeee15c60b716301ef48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 03/16] fix: read IPv6 addresses where :: at an end stands for
 a single zero

---
 src/addr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..85d6397 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -402,7 +402,16 @@ impl FromStr for Ipv6Address {
             addr_str.push('0');
         }
 
-        let chunks: Vec<&str> = addr_str.split(":").collect();
+        let mut chunks: Vec<&str> = addr_str.split(":").collect();
+        if chunks.len() == 9 {
+            // "::2:3:4:5:6:7:8" and "1:2:3:4:5:6:7::" shorten only a single chunk;
+            // the zero added above would be superfluous
+            if s.starts_with("::") {
+                chunks.remove(0);
+            } else if s.ends_with("::") {
+                chunks.pop();
+            }
+        }
         if chunks.len() > 8 {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
-- 
2.43.0


From 56fe07da3161b8e4e60d1495547207480ab968a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 04/16] fix: list no unused networks when a split leaves none

---
 src/cmds/split.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..9de5f0b 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -74,12 +74,14 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
     if !subnet.contains(&max_used_address) {
         println!("Network is too small");
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
-        println!("Unused networks:");
         let last_address = subnet.last_addr_of_subnet();
-        let unused_subnets = range_to_subnets(next_unused_address, last_address);
+        if next_unused_address <= last_address {
+            println!("Unused networks:");
+            let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
-        for unused_subnet in unused_subnets {
-            println!("{}", unused_subnet);
+            for unused_subnet in unused_subnets {
+                println!("{}", unused_subnet);
+            }
         }
     }
 
-- 
2.43.0


From 9db64b27513078eb36eff1329026c33f69e9c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 05/16] fix: split networks up to the end of the address space,
 and whole address spaces

---
 src/cmds/split.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 9de5f0b..593eeb7 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -102,8 +102,11 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
 
     let mut index_to_subnet: HashMap<usize, IpNetwork<A>> = HashMap::new();
 
-    let mut current_net = IpNetwork::new_with_prefix(subnet.base_addr(), subnet.subnet_mask().byte_count()*8);
+    let mut next_subnet_base_addr = Some(subnet.base_addr());
     for (i, host_count) in indexes_and_host_counts {
+        // if the previous subnet borders the end of the address space, this one won't fit
+        let base_addr = next_subnet_base_addr?;
+        let mut current_net = IpNetwork::new_with_prefix(base_addr, subnet.subnet_mask().byte_count()*8);
         while current_net.host_count() < host_count {
             let cidr_prefix = current_net.cidr_prefix().unwrap();
             if cidr_prefix == 0 {
@@ -112,18 +115,14 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
+        if current_net.host_count() < host_count {
             // this won't fit
             return None;
         }
 
         // we fit!
         index_to_subnet.insert(i, current_net);
-        let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
-            Some(nsba) => nsba,
-            None => return None,
-        };
-        current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
+        next_subnet_base_addr = current_net.next_subnet_base_addr();
     }
 
     let mut ordered_subnets: Vec<(usize, IpNetwork<A>)> = index_to_subnet.iter()
-- 
2.43.0


From e2ceba6147f9c484975abcb88123a34d2665387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 06/16] fix: report failure when the slices of a split do not
 fit into the network

---
 src/cmds/split.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 593eeb7..fd61582 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -71,8 +71,9 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
+    if split_subnets.iter().any(|sn| !sn.is_subset_of(&subnet)) {
         println!("Network is too small");
+        return 1;
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
         let last_address = subnet.last_addr_of_subnet();
         if next_unused_address <= last_address {
-- 
2.43.0


From 6cf038e04aab91b42c79d18740c8f83c8874ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 07/16] fix: drop networks that a merged network contains when
 minimizing

---
 src/cmds/minimize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..298c33e 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -118,6 +118,9 @@ pub fn minimize_subnets<A: IpAddress>(
                 filtered_subnets.remove(&subnets[j]);
                 filtered_subnets.insert(new_subnet);
 
+                // with mixed subnet masks, the upper subnet may contain more than just these two
+                filtered_subnets.retain(|net| *net == new_subnet || !net.is_subset_of(&new_subnet));
+
                 subnets_merged = true;
                 break;
             }
-- 
2.43.0


From f087b718a85a065ae9033d42b3ac477f3a06a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 08/16] fix: accept wildcards as the target of a resize

---
 src/cmds/mod.rs    | 24 ++++++++++++++++++++----
 src/cmds/resize.rs | 16 ++++++++++++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 88c49dd..bda080f 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -69,6 +69,7 @@ pub enum NetworkSpecs {
 #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
 pub enum ParsedSubnet {
     Cidr(usize),
+    WildcardCidr(usize),
     Ipv4Mask(Ipv4Address),
     Ipv6Mask(Ipv6Address),
 }
@@ -252,23 +253,34 @@ pub fn parse_same_family_netspecs<S: AsRef<str>>(spec_strs: &[S]) -> Result<Netw
     }
 }
 
-/// Attempts to parse a subnet specification (mask or CIDR prefix).
+/// Attempts to parse a subnet specification (mask or CIDR prefix, or the wildcard of either).
 pub fn parse_subnet(spec: &str) -> Result<ParsedSubnet, ParseNetspecError> {
+    let (spec, is_wildcard) = match spec.strip_prefix('-') {
+        Some(wildcard) => (wildcard, true),
+        None => (spec, false),
+    };
+
     if spec.contains(':') {
-        let ipv6_addr: Ipv6Address = match spec.parse() {
+        let mut ipv6_addr: Ipv6Address = match spec.parse() {
             Ok(ia) => ia,
             Err(e) => {
                 return Err(ParseNetspecError::Mask(e));
             },
         };
+        if is_wildcard {
+            ipv6_addr = ipv6_addr.bitwise_negate();
+        }
         Ok(ParsedSubnet::Ipv6Mask(ipv6_addr))
     } else if spec.contains('.') {
-        let ipv4_addr: Ipv4Address = match spec.parse() {
+        let mut ipv4_addr: Ipv4Address = match spec.parse() {
             Ok(ia) => ia,
             Err(e) => {
                 return Err(ParseNetspecError::Mask(e));
             },
         };
+        if is_wildcard {
+            ipv4_addr = ipv4_addr.bitwise_negate();
+        }
         Ok(ParsedSubnet::Ipv4Mask(ipv4_addr))
     } else {
         let cidr_prefix: usize = match spec.parse() {
@@ -277,6 +289,10 @@ pub fn parse_subnet(spec: &str) -> Result<ParsedSubnet, ParseNetspecError> {
                 return Err(ParseNetspecError::CidrParse(e));
             },
         };
-        Ok(ParsedSubnet::Cidr(cidr_prefix))
+        if is_wildcard {
+            Ok(ParsedSubnet::WildcardCidr(cidr_prefix))
+        } else {
+            Ok(ParsedSubnet::Cidr(cidr_prefix))
+        }
     }
 }
diff --git a/src/cmds/resize.rs b/src/cmds/resize.rs
index 0192acd..b68b633 100644
--- a/src/cmds/resize.rs
+++ b/src/cmds/resize.rs
@@ -36,6 +36,14 @@ pub fn resize(args: &[String]) -> i32 {
                     let mask_bytes = subnet_mask_bytes_from_prefix(cidr, 4);
                     Ipv4Address::from_bytes(&mask_bytes).unwrap()
                 },
+                Ok(ParsedSubnet::WildcardCidr(host_bits)) => {
+                    if host_bits > 32 {
+                        eprintln!("CIDR value {} is greater than maximum for IPv4 (32)", host_bits);
+                        return 1;
+                    }
+                    let mask_bytes = subnet_mask_bytes_from_prefix(32 - host_bits, 4);
+                    Ipv4Address::from_bytes(&mask_bytes).unwrap()
+                },
                 Ok(ParsedSubnet::Ipv4Mask(m)) => {
                     m
                 },
@@ -61,6 +69,14 @@ pub fn resize(args: &[String]) -> i32 {
                     let mask_bytes = subnet_mask_bytes_from_prefix(cidr, 16);
                     Ipv6Address::from_bytes(&mask_bytes).unwrap()
                 },
+                Ok(ParsedSubnet::WildcardCidr(host_bits)) => {
+                    if host_bits > 128 {
+                        eprintln!("CIDR value {} is greater than maximum for IPv6 (128)", host_bits);
+                        return 1;
+                    }
+                    let mask_bytes = subnet_mask_bytes_from_prefix(128 - host_bits, 16);
+                    Ipv6Address::from_bytes(&mask_bytes).unwrap()
+                },
                 Ok(ParsedSubnet::Ipv6Mask(m)) => {
                     m
                 },
-- 
2.43.0


From 4672b0f1e9bd284b59f4c236bc3ac225788508a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 09/16] fix: write the chunks of a full-length IPv6 address

---
 src/addr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 85d6397..04404e1 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -220,7 +220,7 @@ impl Ipv6Address {
     pub fn to_full_string(&self) -> String {
         let chunks = self.to_chunks();
         let mut chunk_strings = Vec::with_capacity(chunks.len());
-        for i in 0..chunk_strings.len() {
+        for i in 0..chunks.len() {
             chunk_strings.push(format!("{:04x}", chunks[i]));
         }
         chunk_strings.join(":")
-- 
2.43.0


From eedfe3209e059be61a86bed84a2ff507c5d1d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 10/16] fix: borrow from the top half when subtracting IPv6
 addresses

---
 src/addr.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 04404e1..0c60548 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -275,13 +275,7 @@ impl Ipv6Address {
 
     fn sub_internal(addrtop64: u64, addrbot64: u64, offtop64: u64, offbot64: u64) -> Option<Ipv6Address> {
         let bot_diff = addrbot64.wrapping_sub(offbot64);
-        let is_borrow =
-            addrtop64 < offtop64
-            || (
-                addrtop64 == offtop64
-                && addrbot64 < offbot64
-            )
-        ;
+        let is_borrow = addrbot64 < offbot64;
 
         let mut top_diff = addrtop64.checked_sub(offtop64)?;
         if is_borrow {
-- 
2.43.0


From 71a931ec4a49fec2a9d85a154311592202b9d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 11/16] fix: compare common network bits to find intersecting
 networks

---
 src/net.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index c8141a4..386e6e5 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -233,13 +233,9 @@ impl<A: IpAddress> IpNetwork<A> {
     /// Returns whether this network and another network intersect, i.e. there is at least one
     /// address that is contained in both networks.
     pub fn intersects(&self, other: &IpNetwork<A>) -> bool {
-        let self_first = self.base_addr;
-        let self_last = self.last_addr_of_subnet();
-        let other_first = other.base_addr;
-        let other_last = other.last_addr_of_subnet();
-
-        // thisFirst <= otherLast && otherFirst <= thisLast
-        self_first <= other_last && other_first <= self_last
+        // the bits that are network bits in both must agree; all others can be chosen freely
+        let common_mask = self.subnet_mask & other.subnet_mask;
+        (self.base_addr & common_mask) == (other.base_addr & common_mask)
     }
 }
 impl<A: IpAddress> fmt::Display for IpNetwork<A> {
-- 
2.43.0


From 7ff3f304b229ed6024814a329b835857f038f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 12/16] fix: report when the color test could not be output

---
 src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 21da9bf..dd70206 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,6 +5,8 @@ mod cmds;
 mod console;
 mod net;
 
+use std::io::Write;
+
 use crate::console::Color;
 
 
@@ -25,6 +27,11 @@ fn color_test() {
     crate::console::write_in_color("Magenta", Some(Color::Magenta), 20);
     crate::console::write_in_color("Yellow", Some(Color::Yellow), 20);
     crate::console::write_in_color("White", Some(Color::White), 20);
+
+    // nothing here ends in a line break, so the text may still be buffered; unlike when flushing at
+    // exit, a failure to output it is noticed here
+    std::io::stdout().flush()
+        .expect("failed to output color test");
 }
 
 fn usage() {
-- 
2.43.0


From 99fb80ecbb392c4c602af030676414c3b6b13024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 13/16] fix: highlight the class bits of IPv4 networks whose
 mask ends right after them

In 64.0.0.0/2 or 32.0.0.0/3, the second or third bit, although 1, is not preceded by
1s only; the bit after it has no say in the class, which is A.
---
 src/cmds/show_net.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 3f44c24..00e9b6c 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -177,11 +177,11 @@ fn output_binary_ipv4_address(
                 } else if bitvec[0] == '1' && mask_bitvec[1] == '0' {
                     // first bit, 1, is part of the network, but second isn't
                     color_class = false;
-                } else if bitvec[1] == '1' && mask_bitvec[2] == '0' {
+                } else if bits.starts_with("11") && mask_bitvec[2] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
-                } else if bitvec[2] == '1' && mask_bitvec[3] == '0' {
-                    // first two bits, both 1, are part of the network, but third isn't
+                } else if bits.starts_with("111") && mask_bitvec[3] == '0' {
+                    // first three bits, all 1, are part of the network, but fourth isn't
                     color_class = false;
                 }
             }
-- 
2.43.0


From 55f419c10507e43b2c09b14b15d9bf35c2aea7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 14/16] fix: refuse arguments that are not valid Unicode
 instead of panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index dd70206..f9b65a8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -52,7 +52,10 @@ fn usage() {
 }
 
 fn do_main() -> i32 {
-    let args: Vec<String> = std::env::args().collect();
+    // what isn't valid Unicode cannot be a network; let it be refused as such
+    let args: Vec<String> = std::env::args_os()
+        .map(|arg| arg.to_string_lossy().into_owned())
+        .collect();
 
     if args.len() < 2 {
         usage();
-- 
2.43.0


From ebdc161103ed6df79f293d7676421a97eb4c7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 15/16] fix: build without the optional features

The calls into the optional console and num-bigint crates were behind
cfg!(), which still has to compile: cargo build --no-default-features
failed, with either feature alone as well.
---
 src/cmds/show_net.rs |  4 +++-
 src/console.rs       | 10 ++++++++--
 src/main.rs          |  7 +++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 00e9b6c..0fa54f9 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -51,6 +51,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
     label_width: isize,
     address_width: isize,
     output_binary_address: OBA,
+    #[cfg_attr(not(feature = "num-bigint"), allow(unused_variables))]
     output_class: OC,
     net: IpNetwork<A>,
     addr: Option<A>,
@@ -111,7 +112,8 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
     }
     println!();
 
-    if cfg!(feature = "num-bigint") {
+    #[cfg(feature = "num-bigint")]
+    {
         if net.host_count() > BigInt::from(0) {
             output_initial_columns("Hosts/Net:", &net.host_count().to_string());
             let top_bits = bytes_to_binary(&net.base_addr().to_bytes()[0..1]);
diff --git a/src/console.rs b/src/console.rs
index a9411b6..f897b75 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -26,7 +26,12 @@ pub enum Color {
 
 /// Outputs text, optionally in a given color, padded to a specific length. Positive padding values
 /// pad at the end, negative at the beginning.
-pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isize) {
+pub fn write_in_color<S: AsRef<str>>(
+    text: S,
+    #[cfg_attr(not(feature = "console"), allow(unused_variables))]
+    color: Option<Color>,
+    pad_to: isize,
+) {
     // pad the string
     let mut padded = String::from(text.as_ref());
     let padded_len_isize: isize = padded.len().try_into().unwrap();
@@ -50,7 +55,8 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    if cfg!(feature = "console") {
+    #[cfg(feature = "console")]
+    {
         if console::colors_enabled() {
             if let Some(clr) = color {
                 let styled = console::style(padded);
diff --git a/src/main.rs b/src/main.rs
index f9b65a8..dfb65d1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -62,12 +62,15 @@ fn do_main() -> i32 {
         return 1;
     }
 
+    #[cfg(feature = "num-bigint")]
+    if args[1] == "-s" || args[1] == "--split" {
+        return crate::cmds::split::split(&args);
+    }
+
     if args[1] == "-m" || args[1] == "--minimize" {
         crate::cmds::minimize::minimize(&args)
     } else if args[1] == "-d" || args[1] == "--derange" {
         crate::cmds::derange::derange(&args)
-    } else if cfg!(feature = "num-bigint") && (args[1] == "-s" || args[1] == "--split") {
-        crate::cmds::split::split(&args)
     } else if args[1] == "-r" || args[1] == "--resize" {
         crate::cmds::resize::resize(&args)
     } else if args[1] == "-e" || args[1] == "--enumerate" {
-- 
2.43.0


From a918b617059a9bc6f034110fee3038ca57f3807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 16/16] fix: write coloured lines in one piece

Lines showing networks were written piece by piece. Coloured lines of IPv6
networks are longer than the 1024 bytes standard output buffers, so that
they reached the output in several writes, and others writing to the same
terminal, pipe or file could end up in their middle.
---
 src/cmds/show_net.rs | 24 ++++++++++++------------
 src/console.rs       | 28 +++++++++++++++++++++++++---
 src/main.rs          |  4 +---
 3 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 0fa54f9..0ed11a7 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -5,7 +5,7 @@ use num_bigint::BigInt;
 
 use crate::bit_manip::bytes_to_binary;
 use crate::cmds::{NetworkSpec, parse_netspec};
-use crate::console::{Color, write_in_color};
+use crate::console::{Color, end_line, write_in_color};
 use crate::addr::{IpAddress, Ipv4Address, Ipv6Address};
 use crate::net::IpNetwork;
 
@@ -34,7 +34,7 @@ pub fn show_net<S: AsRef<str> + Debug>(args: &Vec<S>) -> i32 {
     let mut is_first = true;
     for spec in &specs {
         if !is_first {
-            println!();
+            end_line();
         }
         is_first = false;
 
@@ -64,7 +64,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
     if let Some(a) = addr {
         output_initial_columns("Address:", &a.to_string());
         output_binary_address(a, Some(net.subnet_mask()), false, None);
-        println!();
+        end_line();
 
         let netmask_addr_str = if let Some(pfx) = net.cidr_prefix() {
             format!("{} = {}", net.subnet_mask(), pfx)
@@ -73,14 +73,14 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
         };
         output_initial_columns("Netmask:", &netmask_addr_str);
         output_binary_address(net.subnet_mask(), None, false, Some(MASK_BITS_COLOR));
-        println!();
+        end_line();
 
         output_initial_columns("Wildcard:", &net.cisco_wildcard().to_string());
         output_binary_address(net.cisco_wildcard(), None, false, None);
-        println!();
+        end_line();
 
         write_in_color("=>", Some(LABEL_COLOR), 0);
-        println!();
+        end_line();
     }
 
     let net_str = if let Some(pfx) = net.cidr_prefix() {
@@ -90,19 +90,19 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
     };
     output_initial_columns("Network:", &net_str);
     output_binary_address(net.base_addr(), Some(net.subnet_mask()), true, None);
-    println!();
+    end_line();
 
     if let Some(fha) = net.first_host_addr() {
         output_initial_columns("HostMin:", &fha.to_string());
         output_binary_address(fha, None, false, None);
-        println!();
+        end_line();
         let lha = net.last_host_addr().unwrap();
         output_initial_columns("HostMax:", &lha.to_string());
         output_binary_address(lha, None, false, None);
     } else {
         write_in_color("no hosts", Some(LABEL_COLOR), 0);
     }
-    println!();
+    end_line();
 
     if let Some(bc) = net.broadcast_addr() {
         output_initial_columns("Broadcast:", &bc.to_string());
@@ -110,7 +110,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
     } else {
         write_in_color("no broadcast", Some(LABEL_COLOR), 0);
     }
-    println!();
+    end_line();
 
     #[cfg(feature = "num-bigint")]
     {
@@ -119,10 +119,10 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             let top_bits = bytes_to_binary(&net.base_addr().to_bytes()[0..1]);
             let top_mask_bits = bytes_to_binary(&net.subnet_mask().to_bytes()[0..1]);
             output_class(&top_bits, &top_mask_bits);
-            println!();
+            end_line();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
-            println!();
+            end_line();
         }
     }
 }
diff --git a/src/console.rs b/src/console.rs
index f897b75..6420b84 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -1,4 +1,6 @@
+use std::cell::RefCell;
 use std::convert::TryInto;
+use std::io::Write;
 
 #[cfg(feature = "console")]
 use console;
@@ -24,8 +26,28 @@ pub enum Color {
     White,
 }
 
+thread_local! {
+    /// The pieces of the current line.
+    static LINE: RefCell<String> = RefCell::new(String::new());
+}
+
+/// Ends the line made up of the text output until now. The whole line is written at once, since it
+/// might be longer than the buffer of standard output, in which case it would be written piece by
+/// piece and torn apart by anyone else writing to the same place.
+pub fn end_line() {
+    let mut line = LINE.take();
+    line.push('\n');
+    print!("{}", line);
+}
+
+/// Writes the text output until now even though its line has not ended.
+pub fn flush() -> Result<(), std::io::Error> {
+    print!("{}", LINE.take());
+    std::io::stdout().flush()
+}
+
 /// Outputs text, optionally in a given color, padded to a specific length. Positive padding values
-/// pad at the end, negative at the beginning.
+/// pad at the end, negative at the beginning. The text is written when its line ends.
 pub fn write_in_color<S: AsRef<str>>(
     text: S,
     #[cfg_attr(not(feature = "console"), allow(unused_variables))]
@@ -78,11 +100,11 @@ pub fn write_in_color<S: AsRef<str>>(
                     Color::Yellow => styled.bright().yellow(),
                     Color::White => styled.bright().white(),
                 };
-                print!("{}", colored);
+                LINE.with_borrow_mut(|line| line.push_str(&colored.to_string()));
                 return;
             }
         }
     }
 
-    print!("{}", padded);
+    LINE.with_borrow_mut(|line| line.push_str(&padded));
 }
diff --git a/src/main.rs b/src/main.rs
index dfb65d1..496387a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,8 +5,6 @@ mod cmds;
 mod console;
 mod net;
 
-use std::io::Write;
-
 use crate::console::Color;
 
 
@@ -30,7 +28,7 @@ fn color_test() {
 
     // nothing here ends in a line break, so the text may still be buffered; unlike when flushing at
     // exit, a failure to output it is noticed here
-    std::io::stdout().flush()
+    crate::console::flush()
         .expect("failed to output color test");
 }
 
-- 
2.43.0

