From 21c42a40245a0d69b11306da56de60f9ef438611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 001/145] fix: collectItems no longer loses items handed in
 while a batch is settling

---
 packages/function/src/control/collectItems.ts | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/collectItems.ts b/packages/function/src/control/collectItems.ts
index 91c3b3b..f5ab603 100644
--- a/packages/function/src/control/collectItems.ts
+++ b/packages/function/src/control/collectItems.ts
@@ -87,17 +87,13 @@ export default function collectItems(options?: any) {
             ((isUndefined(total) && isDoneOnce) ||
                 (isUint(total) && !(promises.length % total)))
         ) {
-            return await Promise.all(promises).then(value => {
-                if (!isRestart) {
-                    isOverOnce = true;
-                }
+            const items = isAccumulate ? promises : promises.splice(0);
 
-                if (!isAccumulate) {
-                    promises.length = 0;
-                }
+            if (!isRestart) {
+                isOverOnce = true;
+            }
 
-                return { done: true, value };
-            });
+            return { done: true, value: await Promise.all(items) };
         }
 
         return { done: false, value: void 0 };
-- 
2.43.0


From ad3cd5109185e313482a93d13a65b6c9a647215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 002/145] fix: cancelExec passes its arguments to the callable

---
 packages/function/src/control/cancelExec.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index 256c3eb..d8810c0 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -42,7 +42,7 @@ export default function cancelExec<R, A extends unknown[]>(
 
     return [
         Promise.race([
-            toPromise(callable),
+            toPromise(callable, args),
             new Promise(resolve => {
                 abort = payload => resolve(toPromise(payload, args));
             })
-- 
2.43.0


From 06af26065a04439c1d17b61aa28ad2ef61fc9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 003/145] fix: select passes its arguments to the condition

---
 packages/function/src/select/select.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/select/select.ts b/packages/function/src/select/select.ts
index a712db0..7341a3f 100644
--- a/packages/function/src/select/select.ts
+++ b/packages/function/src/select/select.ts
@@ -24,7 +24,7 @@ export default async function select<A extends unknown[], T>(
     doElse?: ((...args: A) => any) | Promise<any> | T | null | undefined,
     ...args: A
 ): Promise<T | null | undefined> {
-    return (await executeToPromise(condition))
+    return (await executeToPromise(condition, args))
         ? executeToPromise(doIf, args)
         : executeToPromise(doElse, args);
 }
-- 
2.43.0


From 67bca8e050e7cec92674058088e615ab083283cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 004/145] fix: evaluateInt draws from the whole inclusive range

---
 packages/function/src/timeout/constants/evaluateInt.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/constants/evaluateInt.ts b/packages/function/src/timeout/constants/evaluateInt.ts
index fc7fc04..0a49fff 100644
--- a/packages/function/src/timeout/constants/evaluateInt.ts
+++ b/packages/function/src/timeout/constants/evaluateInt.ts
@@ -55,8 +55,8 @@ export default function evaluateInt(value: EvaluableIntValue): number {
                     end === start
                         ? end
                         : start < end
-                          ? range(end, start)
-                          : range(start, end);
+                          ? range(start, end)
+                          : range(end, start);
 
                 if (!isIntSafe(ret)) {
                     throw new TypeError(
-- 
2.43.0


From 3b599841a1e106c247bf0b82e9dcaf3e82d92c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 005/145] fix: timeoutOr disarms its timer when the callable
 fails

---
 packages/function/src/timeout/timeoutOr.ts | 25 ++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index bcc91d2..872679b 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -32,15 +32,18 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     ...args: A
 ) {
     let timer;
-    const ret = await Promise.race([
-        toPromise(callable, args),
-        new Promise(resolve => {
-            timer = setTimeout(
-                () => resolve(executeToPromise(callback, args)),
-                timeoutMsResolve(duration)
-            );
-        })
-    ]);
-    clearTimeout(timer);
-    return ret;
+
+    try {
+        return await Promise.race([
+            toPromise(callable, args),
+            new Promise(resolve => {
+                timer = setTimeout(
+                    () => resolve(executeToPromise(callback, args)),
+                    timeoutMsResolve(duration)
+                );
+            })
+        ]);
+    } finally {
+        clearTimeout(timer);
+    }
 }
-- 
2.43.0


From e627b9fbc18f42baf2f641fd33071ca2bef33216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 006/145] fix: currying keeps every argument of a continued
 call

---
 packages/function/src/currying.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/currying.ts b/packages/function/src/currying.ts
index 0146f95..88c4155 100644
--- a/packages/function/src/currying.ts
+++ b/packages/function/src/currying.ts
@@ -93,7 +93,7 @@ function currying(fn: (...args: any[]) => any): (...args: any[]) => any {
     return function curried(...args: any[]) {
         return args.length >= depth
             ? fn.apply(fn, args)
-            : (arg: any) => curried(...args, arg);
+            : (...rest: any[]) => curried(...args, ...rest);
     };
 }
 
-- 
2.43.0


From b8aacdd68e2d4c6576ed5d4c7806cf51602d4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 007/145] fix: singletonClass does not hand a parent's instance
 to a subclass

---
 packages/function/src/class/singletonClass.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/class/singletonClass.ts b/packages/function/src/class/singletonClass.ts
index a83fc6f..c8daf2c 100644
--- a/packages/function/src/class/singletonClass.ts
+++ b/packages/function/src/class/singletonClass.ts
@@ -36,7 +36,12 @@ export default function singletonClass<T extends Class>(classTarget: T) {
                 return Reflect.construct(target, argumentsList, newTarget);
             }
 
-            if (!target[CLASS_SINGLETON_KEY]) {
+            if (
+                !Object.prototype.hasOwnProperty.call(
+                    target,
+                    CLASS_SINGLETON_KEY
+                )
+            ) {
                 target[CLASS_SINGLETON_KEY] = Reflect.construct(
                     target,
                     argumentsList,
-- 
2.43.0


From 230f93da9cb0b9981125bfaf4a6ca02d44849dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 008/145] fix: timeoutOr answers with the fallback once the
 limit was reached

---
 packages/function/src/timeout/timeoutOr.ts | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index 872679b..ebf9503 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -34,15 +34,13 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     let timer;
 
     try {
-        return await Promise.race([
-            toPromise(callable, args),
-            new Promise(resolve => {
-                timer = setTimeout(
-                    () => resolve(executeToPromise(callback, args)),
-                    timeoutMsResolve(duration)
-                );
-            })
-        ]);
+        return await new Promise<any>((resolve, reject) => {
+            toPromise(callable, args).then(resolve, reject);
+            timer = setTimeout(
+                () => resolve(executeToPromise(callback, args)),
+                timeoutMsResolve(duration)
+            );
+        });
     } finally {
         clearTimeout(timer);
     }
-- 
2.43.0


From 0606095692f094f807ccbf7e03c23b1f00aee9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 009/145] fix: toTree accepts ids that name inherited
 properties and mixes text and number ids consistently

---
 packages/array/src/convert/toTree.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 10561a5..bb6af89 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -109,7 +109,7 @@ export default function toTree(
     const rootItems: TreeItem[] = [];
 
     // 存储所有已处理的项，使用它们的 `id` 作为键，以便于查找
-    const lookup: { [id: string]: TreeItem } = {};
+    const lookup: { [id: string]: TreeItem } = Object.create(null);
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
@@ -121,6 +121,9 @@ export default function toTree(
     // 每当一个项有父项，但父项尚未在查找对象中时，我们在查找对象中存储一个初步的父项
     // 稍后用父项的数据填充它
     // 如果一个项没有 `parentId`，则将其作为根元素添加到 `rootItems` 中
+    const isRootId = (id: any) =>
+        hasOwnProperty(rootParentIds, id) && rootParentIds[id];
+
     for (const item of items) {
         let itemId;
         let parentId;
@@ -133,7 +136,7 @@ export default function toTree(
             parentId = item[pid];
         }
 
-        if (rootParentIds[itemId]) {
+        if (isRootId(itemId)) {
             throw new Error(
                 `items 数组中包含一个节点，它的 parentId 既存在于另一个节点中又在 rootParentIds 中。` +
                     `{itemId: "${itemId}", rootParentIds: ${JSON.stringify(Object.keys(rootParentIds))}}`
@@ -148,7 +151,7 @@ export default function toTree(
 
         // 如果我们跟踪孤立节点，如果此项在孤立节点集中，则将其删除
         if (orphanIds) {
-            orphanIds.delete(itemId);
+            orphanIds.delete(String(itemId));
         }
 
         // 将当前项的数据添加到查找表中的项中
@@ -167,7 +170,7 @@ export default function toTree(
 
         const treeItem = lookup[itemId];
 
-        if (parentId == null || rootParentIds[parentId]) {
+        if (parentId == null || isRootId(parentId)) {
             // 是一个根项
             rootItems.push(treeItem);
         } else {
@@ -180,7 +183,7 @@ export default function toTree(
 
                 // 如果我们跟踪孤立节点，将生成的父项添加到孤立节点列表中
                 if (orphanIds) {
-                    orphanIds.add(parentId);
+                    orphanIds.add(String(parentId));
                 }
             }
 
-- 
2.43.0


From c6daf13460368c11b188d7d0efaba1fc08eee6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 010/145] fix: randomSafe draws 53 bits so that rangeSafe can
 reach every value of a wide range

---
 packages/number/src/randomSafe.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/number/src/randomSafe.ts b/packages/number/src/randomSafe.ts
index 89f8f43..bf7adc6 100644
--- a/packages/number/src/randomSafe.ts
+++ b/packages/number/src/randomSafe.ts
@@ -14,7 +14,8 @@ const crypto = getCrypto();
  * - 如果想生成快速且不安全的随机数，请使用 `random` 方法
  */
 export default function randomSafe(): number {
-    const arr = new Uint32Array(1);
+    const arr = new Uint32Array(2);
     crypto.getRandomValues(arr);
-    return arr[0] * 2 ** -32;
+    // 与 Math.random 相同，使用 53 位的随机数，否则范围超过 2^32 时，大多数的值永远都不会出现
+    return ((arr[0] >>> 5) * 2 ** 26 + (arr[1] >>> 6)) * 2 ** -53;
 }
-- 
2.43.0


From 36f8a1e89bb93f0ac40a87291fdda8afcb8e9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 011/145] fix: withDelimiter inserts the delimiter literally

---
 packages/number/src/withDelimiter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/number/src/withDelimiter.ts b/packages/number/src/withDelimiter.ts
index b26a320..f699907 100644
--- a/packages/number/src/withDelimiter.ts
+++ b/packages/number/src/withDelimiter.ts
@@ -42,7 +42,7 @@ export default function withDelimiter(
     const [integerPart, decimalPart] = numStr.split('.');
 
     const regex = new RegExp(`\\B(?=(\\d{${capacity}})+(?!\\d))`, 'g');
-    const integerWithCommas = integerPart.replace(regex, delimiter);
+    const integerWithCommas = integerPart.replace(regex, () => delimiter);
 
     return decimalPart
         ? `${integerWithCommas}.${decimalPart}`
-- 
2.43.0


From fe441f35b15e1ef44896f341efbfd5464ce881a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 012/145] fix: amountInWords reads inner zeros of the fraction
 as one zero and ignores trailing ones

---
 packages/number/src/amount/amountInWords.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 4a5b7b9..fb050f5 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -68,7 +68,7 @@ const convertDecimal = (amount: string): string => {
         decimal = '';
     }
 
-    const decimalNumbers = decimal.split('');
+    let decimalNumbers = decimal.split('');
 
     if (decimalNumbers.length > MAX_DECIMAL_LENGTH) {
         throw new TypeError(
@@ -76,6 +76,8 @@ const convertDecimal = (amount: string): string => {
         );
     }
 
+    decimalNumbers = decimal.replace(/0+$/, '').split('');
+
     const angle = parseInt(decimalNumbers.shift() ?? '');
     const dnl = decimalNumbers.filter(n => !!n).length;
 
@@ -92,11 +94,13 @@ const convertDecimal = (amount: string): string => {
     for (const key in decimalNumbers) {
         const number = decimalNumbers[key];
 
-        if (number) {
+        if (number !== '0') {
             result.push(
                 DIGIT_UNITS[parseInt(number)],
                 FRACTION_UNITS[parseInt(key) + 1]
             );
+        } else if (result.length && result.at(-1) !== DIGIT_UNITS[0]) {
+            result.push(DIGIT_UNITS[0]);
         }
     }
 
-- 
2.43.0


From 2b6f4aaac5f6f1bb8730d07bb5ff3c8d51d0784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 013/145] fix: amountInWords rejects amounts in scientific or
 hexadecimal notation instead of misreading them

---
 packages/number/src/amount/amountInWords.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index fb050f5..059ed0e 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -154,6 +154,13 @@ export default function amountInWords(
 
     amount = `${amount}`.trim();
 
+    // 科学计数法等形式 (例如 `1e21`、`0x1f`) 无法按位读取
+    if (/[\d.][a-z]/i.test(amount)) {
+        throw new TypeError(
+            `[amountInWords] amount 必须为十进制形式的金额: ${amount}`
+        );
+    }
+
     let integerResult = convertInteger(amount);
     const decimalResult = convertDecimal(amount);
 
-- 
2.43.0


From 2530a0d7eb083c879cb3715780c6b4bc2ba6ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 014/145] fix: createCookie writes no Max-Age when none was
 given

---
 packages/cookie/src/cookie/create.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 0f9c9a0..5f63398 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -4,7 +4,8 @@ import {
     isFunctionFilled,
     isString,
     isStringFilled,
-    isTrue
+    isTrue,
+    isUndefined
 } from '@curong/types';
 
 import type { CreateCookieOptions } from './types';
@@ -69,7 +70,8 @@ export default function createCookie(
         [key: string]: (value: any, chunk: string[]) => string[];
     } = {
         maxAge(v: number, chunk: string[]) {
-            chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
+            !isUndefined(v) &&
+                chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
             return chunk;
         },
 
-- 
2.43.0


From e9ac5356f69c3e0990df19acd454965c9c2ad894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 015/145] fix: createCookie without options no longer crashes

---
 packages/cookie/src/cookie/create.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 5f63398..75e927a 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -128,7 +128,7 @@ export default function createCookie(
         .reduce(
             (memo: string[], v: string) => {
                 return compiler[v](
-                    options[v as keyof CreateCookieOptions],
+                    options?.[v as keyof CreateCookieOptions],
                     memo
                 );
             },
-- 
2.43.0


From ebb727a1ccc381fdf3d94129b831cf50156606bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 016/145] fix: parseCookie keeps values containing '=' and
 segments without one no longer shift names and values

---
 packages/cookie/src/cookie/parse.ts | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 5cde997..bc5cc2b 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -19,7 +19,7 @@ function getDecode(
     value = value.trim();
 
     // 如果值包含双引号
-    if (value.startsWith('"') && value.endsWith('"')) {
+    if (value.length > 1 && value.startsWith('"') && value.endsWith('"')) {
         value = value.slice(1, -1).trim();
     }
 
@@ -80,18 +80,20 @@ export default function parseCookie(
     ) {
         switch (cookie[i]) {
             case '=':
-                key = cookie.slice(star, i).trim();
-                star = i + 1;
+                // 值中也可以包含等号
+                if (!isString(key)) {
+                    key = cookie.slice(star, i).trim();
+                    star = i + 1;
+                }
                 break;
 
             case ';':
-                value = getDecode(cookie.slice(star, i), decode);
+                // 没有等号的片段不是 `key=value`
+                if (isString(key)) {
+                    value = getDecode(cookie.slice(star, i), decode);
+                }
                 star = i + 1;
                 break;
-
-            // NOTE: 逻辑是否正确呢?
-            case '\n':
-                continue;
         }
 
         if (isString(key)) {
-- 
2.43.0


From a3e481f420b764a49a32e4fe5699d3b3f6750e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 017/145] fix: parseSetCookie accepts flag attributes and
 cookies without attributes

---
 packages/cookie/src/setCookie/parse.ts | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 2767dc0..50fb3c9 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -55,9 +55,9 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
 function parseChunk(cookie: string, isDecode: boolean = true) {
     const parts = cookie.split(semicolonReg).filter(isStringFilled);
 
-    if (parts.length <= 1) {
+    if (!parts[0]?.includes(EQUAL)) {
         throw new EvalError(
-            `[parseChunk]: cookie使用分号拆分却只拆分出来一个值出来，"${cookie}"`
+            `[parseChunk]: cookie使用分号拆分后，第一个值不是 key=value 的形式，"${cookie}"`
         );
     }
 
@@ -80,12 +80,6 @@ function parseChunk(cookie: string, isDecode: boolean = true) {
     return parts.reduce((cookie: SetCookieItem, part: string) => {
         const sides = part.split(equalReg);
 
-        if (sides.length <= 1) {
-            throw new EvalError(
-                `[parseChunk]: part使用等号拆分却只拆分出来一个值出来，"${part}"`
-            );
-        }
-
         const key = sides.shift()!.toLowerCase();
 
         return setCookieValue(cookie, key, sides.join(EQUAL));
-- 
2.43.0


From 35a59aa2cfa1508eec5fdefe2a3a4be9d185d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 018/145] fix: splitSetCookie skips the blanks after a
 separating comma and ends on trailing blanks

---
 packages/cookie/src/setCookie/split.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/cookie/src/setCookie/split.ts b/packages/cookie/src/setCookie/split.ts
index e371fcf..34f243f 100644
--- a/packages/cookie/src/setCookie/split.ts
+++ b/packages/cookie/src/setCookie/split.ts
@@ -7,7 +7,7 @@ const skipSpace = (cookie: string, index: number) => {
         index += 1;
     }
 
-    return index < cookie.length;
+    return index;
 };
 
 /**
@@ -56,13 +56,13 @@ export default function splitSetCookie(cookie: string): string[] {
         start = index;
         isSep = false;
 
-        while (skipSpace(cookie, index)) {
+        while (index < cookie.length) {
             char = cookie.charAt(index);
             if (char === COMMA) {
                 last = index;
                 index += 1;
 
-                skipSpace(cookie, index);
+                index = skipSpace(cookie, index);
                 nextStart = index;
 
                 while (index < cookie.length && isSpecial()) {
-- 
2.43.0


From 9626242fda96105b787da02acb7b21684595b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 019/145] fix: copySymbolicLink reproduces the link's own
 target

---
 packages/fs/src/copySymbolicLink.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/copySymbolicLink.ts b/packages/fs/src/copySymbolicLink.ts
index d24fa9c..90bd667 100644
--- a/packages/fs/src/copySymbolicLink.ts
+++ b/packages/fs/src/copySymbolicLink.ts
@@ -7,6 +7,7 @@ import isDir from './isDir';
 import isFile from './isFile';
 import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
+import symbolicLink from './symbolicLink';
 
 const name = 'copySymbolicLink';
 
@@ -51,7 +52,7 @@ export default async function copySymbolicLink(
     }
 
     // 创建符号链接
-    await symlink(fromPath, toPath, type).catch(error => {
+    await symlink((await symbolicLink(fromPath))!, toPath, type).catch(error => {
         throw format({
             name,
             message: '拷贝符号链接失败，无法将fromPath拷贝到toPath',
-- 
2.43.0


From 8da317dedd04032eed8ed42c3e734fd8c17d52ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 020/145] fix: copy copies links as links instead of failing or
 following them

---
 packages/fs/src/copy.ts | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 5a004e1..a7714bc 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,4 +1,4 @@
-import { copyFile, lstat, readdir } from 'fs/promises';
+import { copyFile, lstat, readdir, unlink } from 'fs/promises';
 import { dirname, join } from 'path';
 
 import { format } from '@curong/term';
@@ -6,8 +6,8 @@ import { format } from '@curong/term';
 import copySymbolicLink from './copySymbolicLink';
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 import mkdir from './mkdir';
-import symbolicLink from './symbolicLink';
 import type { CopyFileOptions } from './types';
 
 const _copyFile = async (from: string, to: string, forcibly = false) => {
@@ -32,6 +32,21 @@ const _copyFile = async (from: string, to: string, forcibly = false) => {
     });
 };
 
+const _copyLink = async (from: string, to: string, forcibly: boolean) => {
+    const toStat = await lstat(to).catch(() => null);
+
+    // 如果目标已经存在，并且我们不想强制写入
+    if (toStat && !forcibly) {
+        return;
+    }
+
+    if (toStat && !toStat.isDirectory()) {
+        await unlink(to);
+    }
+
+    return await copySymbolicLink(from, to);
+};
+
 /**
  * 将内容从 `fromPath` 拷贝到 `toPath`
  *
@@ -56,11 +71,10 @@ export default async function copy(
 ): Promise<void> {
     const name = 'copy';
     const { forcibly = true } = options ?? {};
-    let link: string | null;
 
     // 如果源是符号链接
-    if ((link = await symbolicLink(fromPath))) {
-        return await copySymbolicLink(link, toPath);
+    if (await isSymbolicLink(fromPath)) {
+        return await _copyLink(fromPath, toPath, forcibly);
     }
 
     // 如果源是文件
@@ -112,8 +126,8 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if ((link = await symbolicLink(fromPath))) {
-            await copySymbolicLink(link, to);
+        if (await isSymbolicLink(from)) {
+            await _copyLink(from, to, forcibly);
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-- 
2.43.0


From d25972eaeab9db3039ccf7b51dc57c9255b64ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 021/145] fix: copy keeps forcibly: false below the first level

---
 packages/fs/src/copy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index a7714bc..bf23a4f 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -131,7 +131,7 @@ export default async function copy(
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-            await copy(from, to);
+            await copy(from, to, { forcibly });
         } else {
             throw format({
                 name,
-- 
2.43.0


From 537c9e9ae28edc04d4c2360c0f78bb7d77e7a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 022/145] fix: copy refuses to copy a directory into itself
 instead of recursing without end

---
 packages/fs/src/copy.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index bf23a4f..cf8667b 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,5 +1,5 @@
 import { copyFile, lstat, readdir, unlink } from 'fs/promises';
-import { dirname, join } from 'path';
+import { dirname, join, resolve, sep } from 'path';
 
 import { format } from '@curong/term';
 
@@ -91,6 +91,15 @@ export default async function copy(
         });
     }
 
+    // 如果目标在源文件夹的里面，则会无休止地拷贝自己
+    if (resolve(toPath).startsWith(resolve(fromPath, '.') + sep)) {
+        throw format({
+            name,
+            message: `不能将文件夹拷贝到它自己的里面`,
+            data: { fromPath, toPath }
+        });
+    }
+
     const toPathStat = await lstat(toPath).catch(() => null);
 
     // 如果目标名已经被占用并且目标不是一个文件夹
-- 
2.43.0


From ddbef95c4d7513f9d9a86e8b96941e5ddfba19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 023/145] fix: copyFile never deletes the source when a copy
 fails

---
 packages/fs/src/copyFile.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 0406444..e9ae343 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -6,6 +6,7 @@ import { isTrue } from '@curong/types';
 import deleteOne from './deleteOne';
 import destPath from './destPath';
 import diffFile from './diffFile';
+import isFile from './isFile';
 import type { CopyFileOptions } from './types';
 
 /**
@@ -48,8 +49,8 @@ export default async function copyFile(
         try {
             await promises.copyFile(filePath, destString);
         } catch (error) {
-            if (isTrue(options!.forcibly)) {
-                await deleteOne(filePath);
+            if (isTrue(options!.forcibly) && (await isFile(filePath))) {
+                await deleteOne(destString);
 
                 return await copyFile(filePath, srcDir, desDir, {
                     forcibly: false
-- 
2.43.0


From c496b4e20d7c8ed4a70e4acf37eb96bcb6657d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 024/145] fix: diffFile no longer takes trailing zero bytes for
 equal

---
 packages/fs/src/diffFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 2cb11f7..db90e5e 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -24,7 +24,7 @@ export default async function diffFile(
         const buffer = Buffer.alloc(highWorkMark);
         const readBytes = readSync(fd, buffer, 0, highWorkMark, position);
 
-        return isZero(readBytes) ? null : buffer;
+        return isZero(readBytes) ? null : buffer.subarray(0, readBytes);
     };
 
     const fileHandle1 = await open(pathString1, 'r').catch(() => null);
-- 
2.43.0


From 62384aba4caca246d6e69f225fc585bed9450bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 025/145] fix: deleteOne removes links as links, also dangling
 ones

---
 packages/fs/src/deleteOne.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/fs/src/deleteOne.ts b/packages/fs/src/deleteOne.ts
index 8c663aa..f95eae2 100644
--- a/packages/fs/src/deleteOne.ts
+++ b/packages/fs/src/deleteOne.ts
@@ -4,6 +4,7 @@ import { format } from '@curong/term';
 
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 
 /**
  * 删除一个文件或一个文件夹
@@ -14,6 +15,11 @@ import isFile from './isFile';
  * - 如果 `pathString` 不是一个有效路径，则会抛出异常
  */
 export default async function deleteOne(pathString: string): Promise<void> {
+    // 只删除符号链接，不影响它所指向的内容
+    if (await isSymbolicLink(pathString)) {
+        return await unlink(pathString);
+    }
+
     if (await isDir(pathString)) {
         return await rmdir(pathString, { recursive: true });
     }
-- 
2.43.0


From 6c0387ae30c62e5e0324f464af9a32480736aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 026/145] fix: mkdir creates directories that can be entered

---
 packages/fs/src/mkdir.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/mkdir.ts b/packages/fs/src/mkdir.ts
index 2c4c287..10971b5 100644
--- a/packages/fs/src/mkdir.ts
+++ b/packages/fs/src/mkdir.ts
@@ -10,7 +10,7 @@ import { format } from '@curong/term';
  *
  * 包括:
  * - `recursive` 指示是否应创建父文件夹，默认为 `true`
- * - `mode` 权限，默认为 `0o644`
+ * - `mode` 权限，默认为 `0o755`
  *
  * @throws
  *
@@ -23,7 +23,7 @@ export default async function mkdir(
 ): Promise<string | undefined> {
     options = {
         recursive: true,
-        mode: 0o644,
+        mode: 0o755,
         ...options
     };
 
-- 
2.43.0


From c14d3fcb5c92e2fa46dbec0596ec6fd00ca28dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 027/145] fix: writeFile creates missing directories by
 default, as documented

---
 packages/fs/src/writeFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/writeFile.ts b/packages/fs/src/writeFile.ts
index 65f8685..ec81bc2 100644
--- a/packages/fs/src/writeFile.ts
+++ b/packages/fs/src/writeFile.ts
@@ -35,7 +35,7 @@ export default async function writeFile(
         encoding: 'utf8',
         flag: 'w+',
         mode: 0o755,
-        isMkdir: false,
+        isMkdir: true,
         isFormat: true,
         ...options
     };
-- 
2.43.0


From bd5c8161c794cd788f49148e068691e4d7b6674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 028/145] fix: readline and readlineFromCode split buffers into
 lines

---
 packages/fs/src/readline.ts         | 4 ++--
 packages/fs/src/readlineFromCode.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/fs/src/readline.ts b/packages/fs/src/readline.ts
index b6bf366..52e74d8 100644
--- a/packages/fs/src/readline.ts
+++ b/packages/fs/src/readline.ts
@@ -40,8 +40,8 @@ export default function readline(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            chunk = chunk.toString(encoding as BufferEncoding);
+            toString = data => data.join('');
             break;
         }
 
diff --git a/packages/fs/src/readlineFromCode.ts b/packages/fs/src/readlineFromCode.ts
index 684c10a..e4ac1cd 100644
--- a/packages/fs/src/readlineFromCode.ts
+++ b/packages/fs/src/readlineFromCode.ts
@@ -98,8 +98,8 @@ export default function readlineFromCode(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            chunk = chunk.toString(encoding as BufferEncoding);
+            toString = data => data.join('');
             break;
         }
 
-- 
2.43.0


From 7a12e6db187c5c4590d43c893a3c01c81c7d619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 029/145] fix: readFragment with firstLine returns the first
 line instead of nothing

---
 packages/fs/src/readFragment.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/readFragment.ts b/packages/fs/src/readFragment.ts
index 37144ff..16ca05a 100644
--- a/packages/fs/src/readFragment.ts
+++ b/packages/fs/src/readFragment.ts
@@ -49,14 +49,12 @@ export default function readFragment(
             readStream.on('error', error => reject(error));
 
             readStream.on('data', chunk => {
-                if (firstLine) {
-                    return chunk;
-                }
-
                 return (data += chunk);
             });
 
-            readStream.on('end', () => resolve(data));
+            readStream.on('end', () =>
+                resolve(firstLine ? data.split(/\r\n|\r|\n/, 1)[0] : data)
+            );
         } else {
             return resolve();
         }
-- 
2.43.0


From 47ce56e7acce00470d16d9d2a369d88f9805711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 030/145] fix: readLnk throws on other platforms so that
 listings skip shortcuts instead of failing

---
 packages/fs/src/readLnk.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 3bd2d50..0b480ae 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -29,7 +29,7 @@ export default async function readLnk(pathString: string): Promise<string> {
     pathString = normalize(pathString);
 
     if (platform !== 'win32') {
-        return format({
+        throw format({
             name: 'readLnk',
             message: '无法解析不是 ".lnk" 后缀的文件',
             data: { pathString }
-- 
2.43.0


From 24115cc165f8ebf748b8cecdbe70a4117db49469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 031/145] fix: readlineStream returns an empty list for an
 empty file read without callback

---
 packages/fs/src/copy.ts           | 2 +-
 packages/fs/src/readlineStream.ts | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index cf8667b..365de5e 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -92,7 +92,7 @@ export default async function copy(
     }
 
     // 如果目标在源文件夹的里面，则会无休止地拷贝自己
-    if (resolve(toPath).startsWith(resolve(fromPath, '.') + sep)) {
+    if (resolve(toPath).startsWith(resolve(fromPath) + sep)) {
         throw format({
             name,
             message: `不能将文件夹拷贝到它自己的里面`,
diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 1f8489c..29f5114 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -40,12 +40,14 @@ export default async function readlineStream(
     }
 
     const ret: string[] = [];
+    let collected = false;
 
     if (!isFunctionFilled(callback)) {
         if (isFunctionFilled(encoding)) {
             callback = encoding;
             encoding = 'utf8';
         } else {
+            collected = true;
             callback = (input: string) => ret.push(input);
             encoding = encoding ?? 'utf8';
         }
@@ -67,7 +69,7 @@ export default async function readlineStream(
         stream.once('close', () => {
             stream.removeAllListeners();
 
-            if (ret.length > 0) {
+            if (collected) {
                 return resolve(ret);
             }
 
-- 
2.43.0


From e81acbea65c9fd14ad7e68a9b536bd927585ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 032/145] fix: readlineStream rejects when reading fails
 instead of crashing the process

---
 packages/fs/src/readlineStream.ts | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 29f5114..fc5ae01 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -53,15 +53,20 @@ export default async function readlineStream(
         }
     }
 
-    return new Promise(resolve => {
-        const stream = createInterface({
-            input: createReadStream(pathString, {
-                encoding: encoding as BufferEncoding,
-                flags: 'r+',
-                mode: 0o755,
-                autoClose: true,
-                highWaterMark: 64 * 1024
-            })
+    return new Promise((resolve, reject) => {
+        const input = createReadStream(pathString, {
+            encoding: encoding as BufferEncoding,
+            flags: 'r+',
+            mode: 0o755,
+            autoClose: true,
+            highWaterMark: 64 * 1024
+        });
+        const stream = createInterface({ input });
+
+        // 读取失败时，`readline` 不会转发错误
+        input.once('error', error => {
+            reject(error);
+            stream.close();
         });
 
         stream.on('line', callback as ReadlineStreamCallback);
-- 
2.43.0


From 9256acfab69e44c518a178c29e3d9594699d0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 033/145] fix: copy of a link onto itself keeps the link

---
 packages/fs/src/copy.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 365de5e..17f4158 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -40,6 +40,11 @@ const _copyLink = async (from: string, to: string, forcibly: boolean) => {
         return;
     }
 
+    // 如果是拷贝到它自己，则不能先删除它
+    if (resolve(from) === resolve(to)) {
+        return;
+    }
+
     if (toStat && !toStat.isDirectory()) {
         await unlink(to);
     }
-- 
2.43.0


From ad25dbf06fea5a924041e932da5eb52c510087e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 034/145] fix: readlineStream also survives a read failure
 where readline forwards it

---
 packages/fs/src/readlineStream.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index fc5ae01..4648b9e 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -63,7 +63,8 @@ export default async function readlineStream(
         });
         const stream = createInterface({ input });
 
-        // 读取失败时，`readline` 不会转发错误
+        // 读取失败时，有些版本的 `readline` 会转发错误，有些不会
+        stream.on('error', reject);
         input.once('error', error => {
             reject(error);
             stream.close();
@@ -72,7 +73,7 @@ export default async function readlineStream(
         stream.on('line', callback as ReadlineStreamCallback);
 
         stream.once('close', () => {
-            stream.removeAllListeners();
+            stream.removeAllListeners('line');
 
             if (collected) {
                 return resolve(ret);
-- 
2.43.0


From 4927cbff7fbb260a6feec406fd7c83cec49add25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 035/145] fix: readlineStream takes CRLF as one line ending
 however slowly the file is read

---
 packages/fs/src/readlineStream.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 4648b9e..f231486 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -61,7 +61,7 @@ export default async function readlineStream(
             autoClose: true,
             highWaterMark: 64 * 1024
         });
-        const stream = createInterface({ input });
+        const stream = createInterface({ input, crlfDelay: Infinity });
 
         // 读取失败时，有些版本的 `readline` 会转发错误，有些不会
         stream.on('error', reject);
-- 
2.43.0


From 218272acdd317ae13d2c14872280a50cf9de0c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:43 +0000
Subject: [PATCH 036/145] fix: kill signals each process of the tree once

---
 packages/os/src/kill.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 1a10c16..6d13d43 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -34,9 +34,9 @@ const killAll = (
                 }
             });
 
-            if (!killed.has(pid)) {
+            if (!killed.has(+pid)) {
                 killPid(+pid, signal);
-                killed.add(pid);
+                killed.add(+pid);
             }
         });
     } catch (e) {
-- 
2.43.0


From 0ef98d81c87ac8438bdd757bc820920c6a87a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 037/145] fix: spawn reports a command that cannot be started
 without crashing afterwards

---
 packages/process/src/spawn.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index cd9b070..12b917f 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -256,8 +256,9 @@ export default function spawn(
     }) as SpawnResult;
 
     setTimeout(() => {
-        child.stdin = handler!.stdin;
-        child.process = handler!;
+        // 如果命令没能启动，则没有子进程
+        child.stdin = handler?.stdin ?? null;
+        child.process = handler ?? null;
     });
 
     return child;
-- 
2.43.0


From e992ebbd65281ddaf9825f3aedf90c1ae59a7b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 038/145] fix: spawn quotes brackets and braces so that a shell
 does not expand them

---
 packages/process/src/spawn.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index 12b917f..e56278b 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -58,7 +58,7 @@ const escapeSh = (input: string): string => {
         return `''`;
     }
 
-    if (!/[\r\n\t '"`#$&~*;?|()<>\\]/.test(input)) {
+    if (!/[\r\n\t '"`#$&~*;?|()<>\\[\]{}!^]/.test(input)) {
         return input;
     }
 
-- 
2.43.0


From 21f0109b41f532ea007b0c265ec54cd9e23b4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 039/145] fix: request leaves the options object of the caller
 unchanged when it follows a redirect

---
 packages/request/src/request/request.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8a7c0ab..e81f229 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -211,8 +211,11 @@ export default async function request(
                 // 销毁当前请求
                 req.destroy();
 
-                // 消耗一次重定向请求
-                options.maxRedirects = maxRedirects - 1;
+                // 消耗一次重定向请求，不修改调用者传递的选项
+                options = {
+                    ...options,
+                    maxRedirects: maxRedirects - 1
+                };
 
                 // 对请求头的处理
                 const redirectHost = new URL(locationUrl).hostname;
-- 
2.43.0


From be7057f61f398293812c8a1b30d2c0f216a29559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 040/145] fix: request calls the handlers for the response a
 redirect leads to

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index e81f229..07da958 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -258,7 +258,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options));
+                return resolve(request(locationUrl, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From 8002d75815a0b3e537cf2fdd95588966a13b9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 041/145] fix: request resolves a relative redirect and rejects
 for one that cannot be followed

---
 packages/request/src/request/request.ts | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 07da958..d052bd3 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -217,8 +217,30 @@ export default async function request(
                     maxRedirects: maxRedirects - 1
                 };
 
+                // 重定向的地址可以是相对于当前请求的地址
+                let redirectUrl: URL;
+
+                try {
+                    redirectUrl = new URL(
+                        locationUrl,
+                        `${req.protocol}//${config.hostname}:${config.port ?? ''}${config.path}`
+                    );
+
+                    if (!/^https?:$/.test(redirectUrl.protocol)) {
+                        throw new TypeError(
+                            `[request] 不支持的协议: ${redirectUrl.protocol}`
+                        );
+                    }
+                } catch (error) {
+                    return reject(
+                        new Error('[request] 重定向的地址不是一个合法链接', {
+                            cause: { request: req, config, error }
+                        })
+                    );
+                }
+
                 // 对请求头的处理
-                const redirectHost = new URL(locationUrl).hostname;
+                const redirectHost = redirectUrl.hostname;
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
                 deleteOptionsAttr(options, [
@@ -258,7 +280,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options, handlers));
+                return resolve(request(redirectUrl.href, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From 027cb6ebc158366c44c02ca9d48dc48fe2a46eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 042/145] fix: request follows a redirected post as a get
 without body, after a 303 as well

---
 packages/request/src/request/request.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index d052bd3..3ab3fd1 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -269,11 +269,14 @@ export default async function request(
 
                 // 浏览器会将 POST 请求的 301 和 301 重定向重写为 GET
                 // https://tools.ietf.org/html/rfc7231%5C#section-6.4.2
+                // 303 总是使用 GET (HEAD 除外)
                 if (
-                    config.method === 'POST' &&
-                    /^30[12]$/.test(`${res.statusCode}`)
+                    (config.method === 'POST' &&
+                        /^30[12]$/.test(`${res.statusCode}`)) ||
+                    (config.method !== 'HEAD' && res.statusCode === 303)
                 ) {
                     options.method = 'GET';
+                    deleteOptionsAttr(options, ['body']);
                     deleteOptionsAttr(options.headers, [
                         'content-length',
                         'content-type'
-- 
2.43.0


From 84cdb35d557fec6858a92c8147b1013ea79d368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 043/145] fix: request rejects with the result and its error,
 not with a promise, when the response breaks

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 3ab3fd1..87ce602 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -325,7 +325,7 @@ export default async function request(
             });
 
             serialStream.on('end', () => resolve(returns()));
-            serialStream.on('error', e => reject(returns(e)));
+            serialStream.on('error', e => returns(e).then(reject));
         });
 
         req.on('timeout', () => {
-- 
2.43.0


From f0cdb7d432d587fb3a60f5311278f74d5ee74d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 044/145] fix: request does not send the host header of the
 first host to another host

---
 packages/request/src/request/request.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 87ce602..2511737 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -262,6 +262,7 @@ export default async function request(
                 if (!isNull(redirectHost) && redirectHost !== config.hostname) {
                     deleteOptionsAttr(options, ['auth']);
                     deleteOptionsAttr(options.headers, [
+                        'host',
                         'cookie',
                         'authorization'
                     ]);
-- 
2.43.0


From fbcea2752648d315a2de737287c96e2a3779810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 045/145] fix: request keeps the query of the url when further
 query values are given

---
 packages/request/src/request/options.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 94bdcd0..3b74750 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -168,7 +168,7 @@ const urlToParams = (baseUrl: string, options: RequestOptions) => {
     options.https ??= protocol === 'https:';
     options.hostname ??= hostname;
     options.path = options.query // 如果传递空对象也是 `true`
-        ? getPath(options.path ?? path, options.query)
+        ? getPath((options.path ?? path) + search, options.query)
         : getPath((options.path ?? path) + search);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
-- 
2.43.0


From 8bf204de703557c96ef84e70477fe35c13553ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 046/145] fix: request accepts a URL object

---
 packages/request/src/request/options.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 3b74750..7edcec0 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -193,6 +193,10 @@ export const optionsHandler = (
     // 添加通用请求头
     options.headers = toLowerCaseKey({ ...commonHeaders, ...options.headers });
 
+    if (baseUrl instanceof URL) {
+        baseUrl = baseUrl.href;
+    }
+
     if (isStringFilled(baseUrl)) {
         urlToParams(baseUrl, options);
     }
-- 
2.43.0


From ec6ff5e175e9b80ff1130903d823ec015fba4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 047/145] fix: request resolves a redirect of an IPv6 host as
 well

---
 packages/request/src/request/request.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 2511737..3e16650 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -1,4 +1,5 @@
 import { IncomingMessage, type ClientRequest } from 'http';
+import { isIPv6 } from 'net';
 
 import { delayRun } from '@curong/function';
 import { toLowerCaseKey } from '@curong/object';
@@ -221,9 +222,12 @@ export default async function request(
                 let redirectUrl: URL;
 
                 try {
+                    const { hostname, port, path } = config;
+                    const host = isIPv6(hostname!) ? `[${hostname}]` : hostname;
+
                     redirectUrl = new URL(
                         locationUrl,
-                        `${req.protocol}//${config.hostname}:${config.port ?? ''}${config.path}`
+                        `${req.protocol}//${host}:${port ?? ''}${path}`
                     );
 
                     if (!/^https?:$/.test(redirectUrl.protocol)) {
-- 
2.43.0


From 331b0166275025572bf6628f36a132403ae213e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 048/145] fix: copy keeps the content and the length of typed
 arrays

---
 packages/util/src/copy.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 297b447..809e784 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -107,6 +107,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             return reg;
         }
 
+        case 'Int8Array':
+        case 'Uint8Array':
+        case 'Uint8ClampedArray':
+        case 'Int16Array':
+        case 'Uint16Array':
+        case 'Int32Array':
+        case 'Uint32Array':
+        case 'Float32Array':
+        case 'Float64Array':
         case 'BigInt64Array':
         case 'BigUint64Array':
             return new value.constructor(value);
@@ -147,15 +156,6 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
 
         case 'ArrayBuffer':
         case 'SharedArrayBuffer':
-        case 'Int8Array':
-        case 'Uint8Array':
-        case 'Uint8ClampedArray':
-        case 'Int16Array':
-        case 'Uint16Array':
-        case 'Int32Array':
-        case 'Uint32Array':
-        case 'Float32Array':
-        case 'Float64Array':
             return copyArrayBuffer(value);
 
         case 'Arguments':
-- 
2.43.0


From 70c07084ef95daed35511f388dc2b591cf9f61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 049/145] fix: copy copies the elements of sets and maps as
 deep as everything else

---
 packages/util/src/copy.ts | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 809e784..95bba14 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -77,6 +77,11 @@ const copyAttrs = <T extends object>(
     }, dest);
 };
 
+/** 拷贝 `Set` 和 `Map` 中的元素 */
+const copyElement = (value: any, weak: WeakMap<any, any>) => {
+    return isPrimitive(value) ? value : recursiveCopy(value, weak);
+};
+
 /** 根据 `toStringTag` 拷贝类型 */
 const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
     const typeTag = getTag(value);
@@ -145,12 +150,26 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         // `String` 为 `string` 的包装的形式
         case 'Date':
         case 'FileReader':
-        case 'Set':
-        case 'Map':
         case 'URL':
         case 'URLSearchParams':
             return copyBaseType(value);
 
+        case 'Set': {
+            const set = new value.constructor();
+            weak.set(value, set);
+            value.forEach((v: any) => set.add(copyElement(v, weak)));
+            return set;
+        }
+
+        case 'Map': {
+            const map = new value.constructor();
+            weak.set(value, map);
+            value.forEach((v: any, k: any) =>
+                map.set(copyElement(k, weak), copyElement(v, weak))
+            );
+            return map;
+        }
+
         case 'Generator':
             return copyGenerator(value);
 
-- 
2.43.0


From 01c4f960038f917202b49aba13c4b0fc410a73e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 050/145] fix: copy keeps values that are referenced several
 times shared, functions and dates included

---
 packages/util/src/copy.ts | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 95bba14..b3de329 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -250,7 +250,10 @@ const copyFunction = (value: any, weak: any) => {
         source = `return ${src};`;
     }
 
-    return copyAttrs(value, new Function(source!)(), weak);
+    const fn = new Function(source!)();
+    weak.set(value, fn);
+
+    return copyAttrs(value, fn, weak);
 };
 
 function recursiveCopy<T extends object>(
@@ -266,6 +269,10 @@ function recursiveCopy<T extends object>(
         return value;
     }
 
+    if (weak.has(value)) {
+        return weak.get(value);
+    }
+
     // 是不是函数
     // 拷贝同步函数，异步函数，箭头函数，`Generator` 函数，但是不能拷贝 `Promise`。
     if (isFunction(value)) {
@@ -273,15 +280,10 @@ function recursiveCopy<T extends object>(
     }
 
     // 是不是 `Buffer`
-    if (isBuffer(value)) {
-        return copyAttrs(value, Buffer.from(value), weak);
-    }
-
-    if (weak.has(value)) {
-        return weak.get(value);
-    }
+    const ins = isBuffer(value) ? Buffer.from(value) : copyByTag(value, weak);
+    weak.set(value, ins);
 
-    return copyAttrs(value, copyByTag(value, weak), weak);
+    return copyAttrs(value, ins, weak);
 }
 
 /**
-- 
2.43.0


From 5ac3298b9a500a3eccdda47929c0871e722e2cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 051/145] fix: copy keeps the length of arrays that end with
 holes

---
 packages/util/src/copy.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index b3de329..c33eef3 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -190,6 +190,12 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
                 ? Object.create(null)
                 : new proto.constructor();
             weak.set(value, instance);
+
+            // 末尾的空位不是属性，只能通过长度来保留
+            if (Array.isArray(value)) {
+                instance.length = value.length;
+            }
+
             return copyAttrs(value, instance, weak);
         }
 
-- 
2.43.0


From be712f026fa553671ea49cc90f232bf85fc31e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 052/145] Revert "fix: evaluateInt draws from the whole
 inclusive range"

This reverts commit 67bca8e050e7cec92674058088e615ab083283cf.
---
 packages/function/src/timeout/constants/evaluateInt.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/constants/evaluateInt.ts b/packages/function/src/timeout/constants/evaluateInt.ts
index 0a49fff..fc7fc04 100644
--- a/packages/function/src/timeout/constants/evaluateInt.ts
+++ b/packages/function/src/timeout/constants/evaluateInt.ts
@@ -55,8 +55,8 @@ export default function evaluateInt(value: EvaluableIntValue): number {
                     end === start
                         ? end
                         : start < end
-                          ? range(start, end)
-                          : range(end, start);
+                          ? range(end, start)
+                          : range(start, end);
 
                 if (!isIntSafe(ret)) {
                     throw new TypeError(
-- 
2.43.0


From 01504e63b2289a97a8857f3e0444a568860fd6f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 053/145] fix: fromCascadeKeys keeps the second of two keys and
 leaves the given array alone

---
 packages/object/src/cascade/fromCascadeKeys.ts | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index ae34cba..affa80b 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -56,18 +56,16 @@ export default function fromCascadeKeys(
     }
 
     // 获取到第一项
-    let first = addPack(keys.shift()!, oc, false);
+    let first = addPack(keys[0], oc, false);
 
     // 如果不需要给第一项的开头加 `.`
     if (!startDot && first.startsWith('.')) {
         first = first.slice(1);
     }
 
-    // 如果属性数组中只有一项，则直接返回
-    if (keys.length === 1) {
-        return first;
-    }
-
     // 遍历剩余项
-    return keys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
+    return keys
+        .slice(1)
+        .reduce((m, k) => (m.push(addPack(k, oc)), m), [first])
+        .join('');
 }
-- 
2.43.0


From 6b7eda20085744cd362b23f140e28c0b7531ec31 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 054/145] fix: fromCascadeKeys quotes every key that is not an
 identifier

---
 packages/object/src/cascade/fromCascadeKeys.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index affa80b..c745711 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -15,7 +15,7 @@ const addPack = (
 
     //# 处理字符串
 
-    if (/^[^0-9][\w$]*$/.test(key)) {
+    if (/^\s*[a-zA-Z_$][\w$]*$/.test(key)) {
         return isAppendWen ? `${optionalChar}.${key}` : `.${key}`;
     }
 
@@ -23,6 +23,11 @@ const addPack = (
         return `[${key}]`;
     }
 
+    // 属性名中存在引号或需要转义的字符
+    if (/['\\\r\n\u2028\u2029]/.test(key)) {
+        return `[${JSON.stringify(key)}]`;
+    }
+
     return `['${key}']`;
 };
 
-- 
2.43.0


From 55a5351a162b416d13b74eac54e8169960efb6ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 055/145] fix: toCascadeKeys counts characters outside the
 basic plane once

---
 packages/object/src/cascade/toCascadeKeys.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index c77c680..ab3981b 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -89,12 +89,14 @@ export default function toCascadeKeys(
                 break;
 
             case '[':
-                m = value.indexOf(']', i + 1);
+                m = charsArray.indexOf(']', i + 1);
 
                 if (m !== -1) {
                     pushK(tmpKey);
                     tmpKey = '';
-                    ret.push(removeWarp(value.slice(i + 1, m).trim()));
+                    ret.push(
+                        removeWarp(charsArray.slice(i + 1, m).join('').trim())
+                    );
                     i = m;
                 } else {
                     throw format({
-- 
2.43.0


From 62131d09e71ec080819e61e100283e5607c1aeb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 056/145] fix: toCascadeKeys accepts the index 0 as a
 dependency

---
 packages/object/src/cascade/toCascadeKeys.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index ab3981b..0685627 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -68,7 +68,7 @@ export default function toCascadeKeys(
 
         const v = dependencies[key];
 
-        if (!v) {
+        if (!v && v !== 0) {
             throw format({
                 name,
                 message: `"${key}" 属性并未在 dependencies 参数中定义`,
-- 
2.43.0


From fb951d1b192580daccf7263011e14e9cea279770 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 057/145] fix: deleteAttrs leaves the given list of keys alone

---
 packages/object/src/deleteAttrs.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/deleteAttrs.ts b/packages/object/src/deleteAttrs.ts
index c0fd294..68acadf 100644
--- a/packages/object/src/deleteAttrs.ts
+++ b/packages/object/src/deleteAttrs.ts
@@ -22,13 +22,14 @@ export default function deleteAttrs<T extends ObjectType>(
     obj: T,
     deleteKeys: Array<keyof T>
 ): T {
+    const keys = deleteKeys.slice();
     let key: PropertyKey | undefined;
 
-    while (!isUndefined((key = deleteKeys.pop()))) {
+    while (!isUndefined((key = keys.pop()))) {
         if (!Reflect.deleteProperty(obj, key)) {
-            deleteKeys.push(key as keyof T);
+            keys.push(key as keyof T);
 
-            return derive(obj, deleteKeys);
+            return derive(obj, keys);
         }
     }
 
-- 
2.43.0


From 1e38aad5a86f59d4846c82ca0b8077b64e7b95e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 058/145] fix: sortKeys sorts nested objects only when asked to

---
 packages/object/src/keys/sortKeys.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/keys/sortKeys.ts b/packages/object/src/keys/sortKeys.ts
index 5d13a51..0222ba7 100644
--- a/packages/object/src/keys/sortKeys.ts
+++ b/packages/object/src/keys/sortKeys.ts
@@ -88,7 +88,9 @@ export default function sortKeys(
                 ...descriptor,
                 ...(get || set
                     ? { get, set }
-                    : { value: processValue(object[key]) })
+                    : {
+                          value: deep ? processValue(object[key]) : object[key]
+                      })
             });
         }
 
-- 
2.43.0


From ed7a640e09df2a941348864c178af384d9173e6a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 059/145] fix: sortKeys keeps the positions of a sparse array

---
 packages/object/src/keys/sortKeys.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/object/src/keys/sortKeys.ts b/packages/object/src/keys/sortKeys.ts
index 0222ba7..3b1cefb 100644
--- a/packages/object/src/keys/sortKeys.ts
+++ b/packages/object/src/keys/sortKeys.ts
@@ -49,7 +49,8 @@ export default function sortKeys(
 
         const result = [] as unknown as T;
         seenMap.set(array, result);
-        array.forEach((v: any) => result.push(processValue(v)));
+        result.length = array.length;
+        array.forEach((v: any, i) => (result[i] = processValue(v)));
 
         return result;
     };
-- 
2.43.0


From 969528f345885560f2752c1a4b94e29dc2b09e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 060/145] fix: shallowEqual compares enumerable keys on both
 sides

---
 packages/object/src/shallowEqual.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/shallowEqual.ts b/packages/object/src/shallowEqual.ts
index 06ce5e9..42666c1 100644
--- a/packages/object/src/shallowEqual.ts
+++ b/packages/object/src/shallowEqual.ts
@@ -1,5 +1,3 @@
-import { hasOwnProperty } from '@curong/types';
-
 import type { ObjectType } from './types';
 
 /**
@@ -9,6 +7,8 @@ const _is = (x: any, y: any) => {
     return (x === y && (x !== 0 || 1 / x === 1 / y)) || (x !== x && y !== y);
 };
 
+const isEnumerable = Object.prototype.propertyIsEnumerable;
+
 const is = typeof Object.is === 'function' ? Object.is : _is;
 
 /**
@@ -91,7 +91,7 @@ export default function shallowEqual<T>(
     for (let i = 0, k; i < keysA.length; i++) {
         k = keysA[i];
 
-        if (!hasOwnProperty(objB, k) || !compare(objA[k], objB[k], k)) {
+        if (!isEnumerable.call(objB, k) || !compare(objA[k], objB[k], k)) {
             return false;
         }
     }
-- 
2.43.0


From ea33c282adad73f531a5db7776e1132cc49c202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 061/145] fix: stringify keeps the length of arrays and the key
 __proto__

---
 packages/object/src/stringify.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index 42300f1..b30e84e 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -38,7 +38,7 @@ const safeStringifyReplacer = (
         let newValue: any = value;
 
         if (isA || isPlainObject(value)) {
-            newValue = isA ? [] : {};
+            newValue = isA ? new Array(value.length) : {};
 
             let keys = Object.keys(value);
 
@@ -53,7 +53,12 @@ const safeStringifyReplacer = (
 
             for (let i = 0, k, len = keys.length; i < len; i++) {
                 k = keys[i];
-                newValue[k] = internal(value[k], path.concat(k));
+                Object.defineProperty(newValue, k, {
+                    value: internal(value[k], path.concat(k)),
+                    writable: true,
+                    enumerable: true,
+                    configurable: true
+                });
             }
         }
 
-- 
2.43.0


From 03e5809a0f0f5a1eb6291dca0f2106d5e23fc8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 062/145] fix: stringify with a list of keys keeps array items
 and accepts numbers

---
 packages/object/src/stringify.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index b30e84e..f98324f 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -131,14 +131,17 @@ export default function stringify(
             return replacer(k, safeStringifyReplacer(v, compare, cycles));
         };
     } else if (isArray(replacer)) {
-        const memo = new Set(replacer);
-        handler = (k: string, v: any) => {
+        const memo = new Set(replacer.map(String));
+        let isRoot = true;
+        handler = function (this: any, k: string, v: any) {
             // 第一次时，`key` 为空
-            if (!k) {
+            if (isRoot) {
+                isRoot = false;
                 return v;
             }
 
-            if (memo.has(k)) {
+            // 数组中的元素不受属性列表的限制
+            if (isArray(this) || memo.has(k)) {
                 return safeStringifyReplacer(v, compare, cycles);
             }
         };
-- 
2.43.0


From 764b3054786ccf442d1322733cb60e17e4cce442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 063/145] fix: stringify calls the replacer with the object
 that holds the value

---
 packages/object/src/stringify.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index f98324f..ba9ba62 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -127,8 +127,12 @@ export default function stringify(
     let handler: (k: string, v: any) => any;
 
     if (isFunction(replacer)) {
-        handler = (k: string, v: any) => {
-            return replacer(k, safeStringifyReplacer(v, compare, cycles));
+        handler = function (this: any, k: string, v: any) {
+            return replacer.call(
+                this,
+                k,
+                safeStringifyReplacer(v, compare, cycles)
+            );
         };
     } else if (isArray(replacer)) {
         const memo = new Set(replacer.map(String));
-- 
2.43.0


From 3af0d764cc53b7537c7665015643c39a0bf8ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 064/145] fix: bytesArray encodes characters outside the basic
 plane and lone surrogates

---
 packages/string/src/bytes/bytesArray.ts | 36 +++++++++++--------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/packages/string/src/bytes/bytesArray.ts b/packages/string/src/bytes/bytesArray.ts
index f19545a..d9a3b78 100644
--- a/packages/string/src/bytes/bytesArray.ts
+++ b/packages/string/src/bytes/bytesArray.ts
@@ -17,30 +17,26 @@ import codePointAt from '../character/codePointAt';
 export default function bytesArray(value: string): number[] {
     const buffers = [];
 
-    for (let point = 0, next = 0, i = 0, len = value.length; i < len; i++) {
+    for (let point = 0, i = 0, len = value.length; i < len; i++) {
+        // 返回的是完整的代码点，如果是代理对，则需要跳过它的后半部分
         point = codePointAt(value, i)!;
 
-        if (point >= 0xd800 && point <= 0xdbff) {
-            next = codePointAt(value, i)!;
-
-            if (next >= 0xdc00 && next <= 0xdfff) {
-                point = (point - 0xd800) * 0x400 + next - 0xdc00 + 0x10000;
-                i++;
+        if (point > 0xffff) {
+            buffers.push(
+                (0x1e << 3) | (point >>> 18),
+                (0x2 << 6) | ((point >>> 12) & 0x3f),
+                (0x2 << 6) | ((point >>> 6) & 0x3f),
+                (0x2 << 6) | (point & 0x3f)
+            );
+            i++;
 
-                if (point > 0xffff) {
-                    buffers.push(
-                        (0x1e << 3) | (point >>> 18),
-                        (0x2 << 6) | ((point >>> 12) & 0x3f),
-                        (0x2 << 6) | ((point >>> 6) & 0x3f),
-                        (0x2 << 6) | (point & 0x3f)
-                    );
+            continue;
+        }
 
-                    continue;
-                }
-            } else {
-                buffers.push(0xef, 0xbf, 0xbd);
-                continue;
-            }
+        // 单独的代理项
+        if (point >= 0xd800 && point <= 0xdfff) {
+            buffers.push(0xef, 0xbf, 0xbd);
+            continue;
         }
 
         if (point <= 0x007f) {
-- 
2.43.0


From d132c5d6fa738a9b841fc0441480258ede0569af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 065/145] fix: splitByBytes leaves no hole when the first
 character exceeds the limit

---
 packages/string/src/bytes/splitByBytes.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/bytes/splitByBytes.ts b/packages/string/src/bytes/splitByBytes.ts
index f90c3fc..45724bf 100644
--- a/packages/string/src/bytes/splitByBytes.ts
+++ b/packages/string/src/bytes/splitByBytes.ts
@@ -55,7 +55,7 @@ export default function splitByBytes(value: string, highWaterMark = 4096) {
             });
         }
 
-        if (tmp + byte > highWaterMark) {
+        if (tmp > 0 && tmp + byte > highWaterMark) {
             idx++;
             push(char);
             tmp = byte;
-- 
2.43.0


From 5207435eae035ee5375357b11243dbf9d98572c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 066/145] fix: trim and its relatives take extra characters
 literally

---
 packages/string/src/trim/trimRegSource.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 2e7672e..8a318a4 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -6,6 +6,8 @@ import {
     zeroWidthRegSource
 } from '../character/characters';
 
+import toRegExpSource from '../regexp/toRegExpSource';
+
 import type { TrimOptions } from './types';
 
 /**
@@ -36,8 +38,13 @@ export const trimRegSource = (
         { is: () => isTrue(likeSpace), ret: () => likeSpaceRegSource },
         { is: () => isTrue(control), ret: () => controlRegSource },
         {
-            is: () => isStringFilled(extras) || isStringArray(extras),
-            ret: () => `[${[extras].flat().join('')}]`
+            is: () => isStringFilled(extras) ||
+                (isStringArray(extras) && isStringFilled(extras.join(''))),
+            ret: () =>
+                // 额外的字符是字面值，不是字符类的语法
+                `(?:${Array.from([extras].flat().join(''))
+                    .map(v => toRegExpSource(v))
+                    .join('|')})`
         }
     ];
 
-- 
2.43.0


From 7de8c7dec21891528169aba936ba7b728732c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 067/145] fix: behindOf searches behind the position when
 ignoring case

---
 packages/string/src/find/behindOf.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/string/src/find/behindOf.ts b/packages/string/src/find/behindOf.ts
index 9712747..57793c5 100644
--- a/packages/string/src/find/behindOf.ts
+++ b/packages/string/src/find/behindOf.ts
@@ -41,8 +41,7 @@ export default function behindOf(
     let fn = (str: string, chunk: string) => str.includes(chunk, pos);
 
     if (isFalse(caseSensitivity)) {
-        const l = str.length;
-        str = str.slice(0, isUint(pos) && pos < l ? pos : l);
+        str = str.slice(isUint(pos) ? pos : 0);
         fn = (str: string, chunk: string) => toRegExp(chunk, 'i').test(str);
     }
 
-- 
2.43.0


From cd22223ab27ebb39eacc6f0a991c806a635e248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 068/145] fix: subSpaces finds the neighbours of matches of
 patterns with named groups

---
 packages/string/src/spaces/subSpaces.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/string/src/spaces/subSpaces.ts b/packages/string/src/spaces/subSpaces.ts
index 23e3bf3..3e24ad3 100644
--- a/packages/string/src/spaces/subSpaces.ts
+++ b/packages/string/src/spaces/subSpaces.ts
@@ -1,5 +1,5 @@
 import { source } from '@curong/regexp';
-import { isFunction } from '@curong/types';
+import { isFunction, isString } from '@curong/types';
 
 /** 验证所有标点符号和一个空格 */
 const punctuationReg = new RegExp(`${source.punctuation}| `);
@@ -58,8 +58,11 @@ export default function subSpaces(
 
     return value.replace(regexp, (...matches) => {
         const substring = matches[0];
-        const value = matches[matches.length - 1];
-        const index = matches[matches.length - 2];
+        // 如果正则中存在命名捕获组，则最后一项是命名捕获组对象
+        const end = matches.length - 1;
+        const last = isString(matches[end]) ? end : end - 1;
+        const value = matches[last];
+        const index = matches[last - 1];
         const leftChar = value[index - 1];
         const rightChar = value[index + substring.length];
 
-- 
2.43.0


From b3683991c4e1577925161c9c77a441aa8caa5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 069/145] fix: bindInside joins a neighbouring quote like a
 neighbouring bracket

---
 packages/string/src/inside/bindInside.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 31e95da..15b401c 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -106,7 +106,9 @@ export default function bindInside(
         if (isToken && --j <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
-                headToken = value[i + 1];
+                // 跳过紧挨着的开始标记
+                headToken = value[++i];
+                j = 0;
                 continue;
             }
 
-- 
2.43.0


From 3ee508e56b8aa885c8e0bf2efaeb784fa4caf7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 070/145] fix: bindInside closes custom marks that open and
 close alike

---
 packages/string/src/inside/bindInside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 15b401c..2e69557 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -97,7 +97,7 @@ export default function bindInside(
         }
 
         // 如果是嵌套的括号
-        if (!/['"`]/.test(char) && char === headToken) {
+        if (!isToken && char === headToken) {
             j++;
             continue;
         }
-- 
2.43.0


From fe177c2e1feec4221da9eeb377e985418d38c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 071/145] fix: bindInside honours escaped backslashes and
 escaped nested brackets

---
 packages/string/src/inside/bindInside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 2e69557..790af70 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -86,7 +86,7 @@ export default function bindInside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            [token, headToken, '\\'].includes(value[i + 1]) && i++;
             continue;
         }
 
-- 
2.43.0


From 1c6acd7a3be4427db8bda41ca047b6952a990c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 072/145] fix: bindInside recognises apostrophes before two
 letters

---
 packages/string/src/inside/bindInside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 790af70..8c52ca3 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -91,7 +91,7 @@ export default function bindInside(
         }
 
         // 如果为单引号，就判断是不是用来包裹内容的引号
-        if (char === "'" && value.slice(i - 1, i + 3).match(wordReg)) {
+        if (char === "'" && value.slice(i - 1, i + 4).match(wordReg)) {
             i++;
             continue;
         }
-- 
2.43.0


From 93f4edf98f1c1970d418cdff788054c4554cd150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 073/145] fix: bindOutside joins a neighbouring quote like a
 neighbouring bracket

---
 packages/string/src/inside/bindOutside.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 76d5d59..546fa84 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -151,7 +151,9 @@ export default function bindOutside(
         if (isToken && j-- <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
-                headToken = value[i + 1];
+                // 跳过紧挨着的开始标记
+                headToken = value[++i];
+                j = 0;
                 continue;
             }
 
-- 
2.43.0


From 87f1537f39437e544d2ecae7d2c275cb14f8e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 074/145] fix: bindOutside closes custom marks that open and
 close alike

---
 packages/string/src/inside/bindOutside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 546fa84..70f9d6f 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -142,7 +142,7 @@ export default function bindOutside(
         }
 
         // 如果是嵌套的括号
-        if (!/['"`]/.test(char) && char === headToken) {
+        if (!isToken && char === headToken) {
             j++;
             continue;
         }
-- 
2.43.0


From fc160fd0726628ceafa55af45d2b1f2950e11638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 075/145] fix: bindOutside honours escaped backslashes and
 escaped nested brackets

---
 packages/string/src/inside/bindOutside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index 70f9d6f..fcd2158 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -131,7 +131,7 @@ export default function bindOutside(
                 continue;
             }
 
-            value[i + 1] === token && i++;
+            [token, headToken, '\\'].includes(value[i + 1]) && i++;
             continue;
         }
 
-- 
2.43.0


From 8c435b1ea657e095ac8cc1dcf97d1a094cf54645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 076/145] fix: bindOutside recognises apostrophes before two
 letters

---
 packages/string/src/inside/bindOutside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index fcd2158..f2d9c17 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -136,7 +136,7 @@ export default function bindOutside(
         }
 
         // 如果为单引号，就判断是不是用来包裹内容的引号
-        if (char === "'" && value.slice(i - 1, i + 3).match(wordReg)) {
+        if (char === "'" && value.slice(i - 1, i + 4).match(wordReg)) {
             i++;
             continue;
         }
-- 
2.43.0


From 35e6e6950103a8abf8006869c09c56ad3ea7ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 077/145] fix: bindInside keeps nested brackets together

---
 packages/string/src/inside/bindInside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindInside.ts b/packages/string/src/inside/bindInside.ts
index 8c52ca3..9319aa2 100644
--- a/packages/string/src/inside/bindInside.ts
+++ b/packages/string/src/inside/bindInside.ts
@@ -103,7 +103,7 @@ export default function bindInside(
         }
 
         // 如果括号或引号已经解析完成
-        if (isToken && --j <= 0) {
+        if (isToken && j-- <= 0) {
             // 如果紧挨着的仍然是括号或引号
             if ((token = marks[value[i + 1] as DefaultMarksType])) {
                 // 跳过紧挨着的开始标记
-- 
2.43.0


From a5b70004a5f4fb27f7d9692172aa74aecef27494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 078/145] fix: quotePair lets an escaped backslash end before
 the closing quote and recognises apostrophes before two letters

---
 packages/string/src/quote/quotePair.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/quote/quotePair.ts b/packages/string/src/quote/quotePair.ts
index cafdb76..68f7359 100644
--- a/packages/string/src/quote/quotePair.ts
+++ b/packages/string/src/quote/quotePair.ts
@@ -34,11 +34,11 @@ export default function quotePair(str: string): string {
 
         switch (char) {
             case '\\':
-                str[i + 1] === token && i++;
+                token && [token, '\\'].includes(str[i + 1]) && i++;
                 break;
 
             case "'":
-                if (equal && str.slice(i - 1, i + 3).match(word)) {
+                if (equal && str.slice(i - 1, i + 4).match(word)) {
                     i++;
                     break;
                 }
-- 
2.43.0


From daa8c55b5b108bb9928b81b355f39dd52736f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 079/145] fix: bindOutside gives the end of the text as the
 index of the last piece

---
 packages/string/src/inside/bindOutside.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/inside/bindOutside.ts b/packages/string/src/inside/bindOutside.ts
index f2d9c17..13d6056 100644
--- a/packages/string/src/inside/bindOutside.ts
+++ b/packages/string/src/inside/bindOutside.ts
@@ -185,7 +185,7 @@ export default function bindOutside(
     }
 
     if (idleStart !== len) {
-        ret.push(callback(value.slice(idleStart), i, value));
+        ret.push(callback(value.slice(idleStart), len, value));
     }
 
     return ret.join('');
-- 
2.43.0


From 62aa53709e71911286d14f4f12b402e8e39489ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 080/145] fix: the entities nbsp, ensp, emsp and thinsp stand
 for their own characters

---
 packages/string/src/character/constants/htmlEntities.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/character/constants/htmlEntities.ts b/packages/string/src/character/constants/htmlEntities.ts
index f70d688..983c82d 100644
--- a/packages/string/src/character/constants/htmlEntities.ts
+++ b/packages/string/src/character/constants/htmlEntities.ts
@@ -5,7 +5,7 @@ export default [
     { "value": "'", "name": "apos", "point": "39", "description": "撇号" },
     { "value": "<", "name": "lt", "point": "60", "description": "小于号" },
     { "value": ">", "name": "gt", "point": "62", "description": "大于号" },
-    { "value": " ", "name": "nbsp", "point": "160", "description": "不换行空格" },
+    { "value": "\u00A0", "name": "nbsp", "point": "160", "description": "不换行空格" },
     { "value": "¡", "name": "iexcl", "point": "161", "description": "倒置叹号" },
     { "value": "¢", "name": "cent", "point": "162", "description": "分 (货币符号))" },
     { "value": "£", "name": "pound", "point": "163", "description": "镑 (货币符号)" },
@@ -161,9 +161,9 @@ export default [
     { "value": "ϑ", "name": "thetasym", "point": "977", "description": "希腊字母ϑ，手写体" },
     { "value": "ϒ", "name": "upsih", "point": "978", "description": "希腊字母ϒ，笔画卷曲的字形" },
     { "value": "ϖ", "name": "piv", "point": "982", "description": "希腊字母ϖ，古老的字形" },
-    { "value": " ", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
-    { "value": " ", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
-    { "value": " ", "name": "thinsp", "point": "8201", "description": "细空间" },
+    { "value": "\u2002", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
+    { "value": "\u2003", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
+    { "value": "\u2009", "name": "thinsp", "point": "8201", "description": "细空间" },
     { "value": "‌", "name": "zwnj", "point": "8204", "description": "零宽不连字" },
     { "value": "‍", "name": "zwj", "point": "8205", "description": "零宽连字" },
     { "value": "‎", "name": "lrm", "point": "8206", "description": "左到右标志" },
-- 
2.43.0


From bab9e90d3cfc583d6f6e5d84ef654028c112842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 081/145] fix: decodeEntity decodes every entity once

---
 packages/string/src/character/htmlEntities.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/character/htmlEntities.ts b/packages/string/src/character/htmlEntities.ts
index d7a2d60..beb27e7 100644
--- a/packages/string/src/character/htmlEntities.ts
+++ b/packages/string/src/character/htmlEntities.ts
@@ -26,6 +26,9 @@ const nR = new RegExp(`&(${htmlEntities.map(h => h.name).join('|')});`, 'g');
 /** 验证实体编号的正则表达式 */
 const pR = new RegExp(`&#(${htmlEntities.map(h => h.point).join('|')});`, 'g');
 
+/** 验证实体名称或实体编号的正则表达式 */
+const npR = new RegExp(`${nR.source}|${pR.source}`, 'g');
+
 /** 验证实体字符的正则表达式 */
 const vR = new RegExp(`(${htmlEntities.map(h => h.value).join('|')})`, 'g');
 
@@ -56,7 +59,10 @@ export function decodeEntityByPoint(str: string): string {
  * @returns 返回解码的字符串
  */
 export function decodeEntity(value: string): string {
-    return decodeEntityByName(decodeEntityByPoint(value));
+    return value.replace(
+        npR,
+        (_, name, point) => nameValueMap[name] ?? pointValueMap[point]
+    );
 }
 
 /**
-- 
2.43.0


From a692e8df040e5378a51fc4dd51aac61747299c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 082/145] fix: toRegExpSource escapes hyphens so that they work
 with the flag u

---
 packages/string/src/regexp/toRegExpSource.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/regexp/toRegExpSource.ts b/packages/string/src/regexp/toRegExpSource.ts
index f74f909..eab12fb 100644
--- a/packages/string/src/regexp/toRegExpSource.ts
+++ b/packages/string/src/regexp/toRegExpSource.ts
@@ -11,5 +11,7 @@
  * ```
  */
 export default function toRegExpSource(str: string): string {
-    return str.replace(/(?=[[\](){}^$.?*+|\\/-])/g, '\\');
+    return str
+        .replace(/(?=[[\](){}^$.?*+|\\/])/g, '\\')
+        .replace(/-/g, '\\x2d');
 }
-- 
2.43.0


From 37bcf9a6ffcc13caeea482c2b023d4b90db06576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 083/145] fix: execAll terminates on empty matches and leaves
 the position of the pattern alone

---
 packages/regexp/src/execAll.ts | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index 50525e8..bb66322 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -181,10 +181,25 @@ export default function execAll(
         keyOrCallback = (match: RegExpExecOrigin) => match;
     } while (false);
 
+    // 使用副本来捕获，避免受到回调函数的影响或改变原正则的 `lastIndex`
+    const regexp = new RegExp(reg.source, reg.flags);
+    regexp.lastIndex = reg.lastIndex;
+
     do {
-        match = reg.exec(str) as RegExpExecOrigin;
-        match && res.push(keyOrCallback(match));
-    } while (reg.global && match);
+        match = regexp.exec(str) as RegExpExecOrigin;
+
+        if (match) {
+            res.push(keyOrCallback(match));
+
+            // 如果捕获到的是空字符串，则需要手动向后移动一个字符
+            if (match[0] === '') {
+                const isPair =
+                    regexp.unicode && str.codePointAt(match.index)! > 0xffff;
+
+                regexp.lastIndex = match.index + (isPair ? 2 : 1);
+            }
+        }
+    } while (regexp.global && match);
 
     return res;
 }
-- 
2.43.0


From ad6e5e0d2c9c5158b627a010dd1186b62514a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 084/145] fix: testEvery does not depend on the position a
 pattern remembers

---
 packages/regexp/src/testEvery.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/testEvery.ts b/packages/regexp/src/testEvery.ts
index 5fd75bd..5a0f360 100644
--- a/packages/regexp/src/testEvery.ts
+++ b/packages/regexp/src/testEvery.ts
@@ -32,7 +32,7 @@ export default function testEvery(
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (!regexps[i].test(str)) {
+        if (str.search(regexps[i]) === -1) {
             return false;
         }
     }
-- 
2.43.0


From 369e83bbda7d0152e6e45b620853e7c6ccfb32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 085/145] fix: testSome does not depend on the position a
 pattern remembers

---
 packages/regexp/src/testSome.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/testSome.ts b/packages/regexp/src/testSome.ts
index e8430be..37677cb 100644
--- a/packages/regexp/src/testSome.ts
+++ b/packages/regexp/src/testSome.ts
@@ -29,7 +29,7 @@ export default function testSome(regexps: RegExp[], str: string): boolean {
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (regexps[i].test(str)) {
+        if (str.search(regexps[i]) !== -1) {
             return true;
         }
     }
-- 
2.43.0


From cf2b528c3a589e7f0307d4065a0adbd1439d2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 086/145] fix: matchSplit splits at the first match of a global
 pattern

---
 packages/string/src/match/matchSplit.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/match/matchSplit.ts b/packages/string/src/match/matchSplit.ts
index e5a117e..7ebd65d 100644
--- a/packages/string/src/match/matchSplit.ts
+++ b/packages/string/src/match/matchSplit.ts
@@ -28,7 +28,10 @@ export default function matchSplit(str: string, reg: RegExp): string[] {
         return res;
     }
 
-    if ((match = str.match(reg)) && isUint(match.index)) {
+    // 全局匹配的结果中没有索引，所以只匹配一次
+    const regexp = new RegExp(reg.source, reg.flags.replace('g', ''));
+
+    if ((match = str.match(regexp)) && isUint(match.index)) {
         res.push(str.slice(0, match.index));
         res.push(match[0]);
         res.push(str.slice(match.index + match[0].length));
-- 
2.43.0


From bc50718e8432618e9ec0bbcfa1d6242dbd986976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 087/145] fix: ending rapid blinking uses the code that ends
 blinking

---
 packages/term/src/ansiFormat.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/term/src/ansiFormat.ts b/packages/term/src/ansiFormat.ts
index 570a58d..caf94d0 100644
--- a/packages/term/src/ansiFormat.ts
+++ b/packages/term/src/ansiFormat.ts
@@ -61,6 +61,11 @@ export default function ansiFormat(
             continue;
         }
 
+        // 快速闪烁和闪烁都使用 `25` 来恢复
+        if (key === 'rapidBlink') {
+            resetAppend--;
+        }
+
         switch (key) {
             case 'bold':
                 // `22` 和 `21` 的作用相同
-- 
2.43.0


From c862626c7797bf3ae37e98a23d06f89e72db388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 088/145] fix: format shows percent signs of a title as they
 are

---
 packages/term/src/format.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/term/src/format.ts b/packages/term/src/format.ts
index 655f550..01a4f2f 100644
--- a/packages/term/src/format.ts
+++ b/packages/term/src/format.ts
@@ -244,5 +244,10 @@ export default function format(info: ForMatInfo, options?: ForMatOptions) {
         styleText.push(LF);
     }
 
+    /** 标题中的 `%` 不是占位符 */
+    if (styleText.length > 1) {
+        styleText[0] = styleText[0].replace(/%/g, '%%');
+    }
+
     return formatWithOptions({ ...options }, ...styleText);
 }
-- 
2.43.0


From 6eafb8741e1cd0c5bc4a813f039e432a741ba869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 089/145] fix: ProgressBar is complete at the step that reaches
 its total

---
 packages/term/src/progressBar.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 41ac71d..4a73e96 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -159,7 +159,7 @@ export default class ProgressBar {
     write(value: string = ''): boolean {
         stdout.write(`${clearLine()}${this.record.join(' ')} ${value}`);
 
-        return isEqual(this.options.total, this.index) && this.end();
+        return isEqual(this.options.total, this.index + 1) && this.end();
     }
 
     /**
-- 
2.43.0


From f02fcb84b7a0df0d5979d8c65892f1091aa7b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 090/145] fix: cursorOnLineBegin stays on its line when that is
 the first of the screen

---
 packages/term/src/progressBar.ts     | 2 +-
 packages/term/src/sequence/cursor.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 4a73e96..e4b3ec8 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -10,7 +10,7 @@ import {
 } from './sequence';
 import type { ProgressBarOptions } from './types';
 
-/** 相当于: `\u001B[A\u001B[E\u001B[K` */
+/** 相当于: `\u001B[1G\u001B[0K` */
 const clearLine = () => cursorOnLineBegin + eraseLine();
 
 /**
diff --git a/packages/term/src/sequence/cursor.ts b/packages/term/src/sequence/cursor.ts
index 620887a..cbeed5b 100644
--- a/packages/term/src/sequence/cursor.ts
+++ b/packages/term/src/sequence/cursor.ts
@@ -66,4 +66,4 @@ export const cursorHidden = `${CSI}?25l`;
 export const cursorShow = `${CSI}?25h`;
 
 /** 跳转到当前行的开头 */
-export const cursorOnLineBegin = `${CSI}A${CSI}E`;
+export const cursorOnLineBegin = `${CSI}1G`;
-- 
2.43.0


From acb9f2d64197ad4f3788e92e36980073892ade95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 091/145] fix: ProgressBar multiplies before dividing so that
 29 of 100 is 29%

---
 packages/term/src/progressBar.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index e4b3ec8..cb44570 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -85,13 +85,13 @@ export default class ProgressBar {
         if (isUintSafe(total)) {
             // 有限
             if (picture) {
-                const finish = Math.floor((lastIndex / total!) * 10);
+                const finish = Math.floor((lastIndex * 10) / total!);
                 const text = '#'.repeat(finish).padEnd(10, ' ');
                 bars.push(`[${text}]`);
             }
 
             if (percentage) {
-                const number = Math.floor((lastIndex / total!) * 100);
+                const number = Math.floor((lastIndex * 100) / total!);
                 bars.push(`${number}%`);
             }
 
-- 
2.43.0


From 4dd8f10b39ae62b01674b40ee7bc1264b0db062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 092/145] fix: isElement answers false where there are no
 elements

---
 packages/types/src/element/isElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/types/src/element/isElement.ts b/packages/types/src/element/isElement.ts
index e55a7bd..8c7f529 100644
--- a/packages/types/src/element/isElement.ts
+++ b/packages/types/src/element/isElement.ts
@@ -10,5 +10,5 @@
  *
  */
 export default function isElement(value: unknown): value is Element {
-    return value instanceof Element;
+    return typeof Element !== 'undefined' && value instanceof Element;
 }
-- 
2.43.0


From 9bf870ebd7848eb46a306471a37f62216d3b35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 093/145] fix: isClass recognises classes written without a
 blank and refuses methods named class

---
 packages/types/src/function/isClass.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/function/isClass.ts b/packages/types/src/function/isClass.ts
index 46a0a81..b4aa214 100644
--- a/packages/types/src/function/isClass.ts
+++ b/packages/types/src/function/isClass.ts
@@ -16,6 +16,9 @@ export default function isClass<R = unknown, A extends unknown[] = unknown[]>(
     value: unknown
 ): value is Class<R, A> {
     return (
-        isFunction(value) && functionToString.call(value).startsWith('class ')
+        isFunction(value) &&
+        functionToString.call(value).startsWith('class') &&
+        // 类的 `prototype` 不可写，而名称为 `class` 的方法没有 `prototype`
+        Object.getOwnPropertyDescriptor(value, 'prototype')?.writable === false
     );
 }
-- 
2.43.0


From ba5674ab8079aafe78ce79cda822c615b8e38146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 094/145] fix: isFunctionBound answers for functions whose name
 is not a text

---
 packages/types/src/function/isFunctionBound.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/function/isFunctionBound.ts b/packages/types/src/function/isFunctionBound.ts
index 65c40b5..9c660e1 100644
--- a/packages/types/src/function/isFunctionBound.ts
+++ b/packages/types/src/function/isFunctionBound.ts
@@ -1,5 +1,8 @@
 import hasOwnProperty from '../property/hasOwnProperty';
 
+import isString from '../string/isString';
+
+import { functionToString } from './constants';
 import isFunction from './isFunction';
 import type { Function } from './types';
 
@@ -19,8 +22,9 @@ export default function isFunctionBound<
 >(value: unknown): value is Function<R, A> {
     return (
         isFunction(value) &&
+        isString(value.name) &&
         value.name.startsWith('bound ') &&
         !hasOwnProperty(value, 'prototype') &&
-        value.toString() === 'function () { [native code] }'
+        functionToString.call(value) === 'function () { [native code] }'
     );
 }
-- 
2.43.0


From cb7624de5d68a9fbb5faa1001df60bd5a1aca0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 095/145] fix: isNativeFunction compares names as they are

---
 packages/types/src/function/isNativeFunction.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/types/src/function/isNativeFunction.ts b/packages/types/src/function/isNativeFunction.ts
index cf50889..f762081 100644
--- a/packages/types/src/function/isNativeFunction.ts
+++ b/packages/types/src/function/isNativeFunction.ts
@@ -19,8 +19,7 @@ export default function isNativeFunction<
         // 确保该函数没有被人为修改
         isNativeFunctionToString &&
         // 结果只能是特定的字符串
-        new RegExp(
-            `^function ${(value as any).name}\\(\\) \\{ \\[native code\\] \\}$`
-        ).test(functionToString.call(value))
+        functionToString.call(value) ===
+            `function ${String((value as any).name)}() { [native code] }`
     );
 }
-- 
2.43.0


From eff9094cbcbdf5ae083aff8bf21b826d4ba6c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 096/145] fix: isVarName refuses texts that go on after the
 name

---
 packages/types/src/variable/isVarName.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/types/src/variable/isVarName.ts b/packages/types/src/variable/isVarName.ts
index bd2b608..19f56a1 100644
--- a/packages/types/src/variable/isVarName.ts
+++ b/packages/types/src/variable/isVarName.ts
@@ -1,5 +1,3 @@
-import isString from '../string/isString';
-
 /**
  * 是不是可以把值当做 `JavaScript` 的变量名
  *
@@ -8,7 +6,10 @@ import isString from '../string/isString';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isVarName(value: unknown): value is string {
-    if (!isString(value) || value.trim() !== value) {
+    if (
+        typeof value !== 'string' ||
+        !/^[\p{ID_Start}$_][\p{ID_Continue}$\u200c\u200d]*$/u.test(value)
+    ) {
         return false;
     }
 
-- 
2.43.0


From 706a569f5c8480acb479827e00ceab2e5505baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 097/145] fix: assertEqual and assertNotEqual compare with each
 of the values

---
 packages/asserts/src/cmp/assertEqual.ts    | 2 +-
 packages/asserts/src/cmp/assertNotEqual.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/cmp/assertEqual.ts b/packages/asserts/src/cmp/assertEqual.ts
index 4cc1a6a..89dd20c 100644
--- a/packages/asserts/src/cmp/assertEqual.ts
+++ b/packages/asserts/src/cmp/assertEqual.ts
@@ -13,7 +13,7 @@ export default function assertEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isEqual(value, args)) {
+    if (!isEqual(value, ...args)) {
         throw new TypeError(
             `[assertEqual] ${value} 与 ${args} 中的某些值不相等`
         );
diff --git a/packages/asserts/src/cmp/assertNotEqual.ts b/packages/asserts/src/cmp/assertNotEqual.ts
index a01257a..a479b8a 100644
--- a/packages/asserts/src/cmp/assertNotEqual.ts
+++ b/packages/asserts/src/cmp/assertNotEqual.ts
@@ -13,7 +13,7 @@ export default function assertNotEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isNotEqual(value, args)) {
+    if (!isNotEqual(value, ...args)) {
         throw new TypeError(`[assertEqual] ${value} 与 ${args} 中的某些值相等`);
     }
 }
-- 
2.43.0


From 89dadfce0df397a5896021c6a440c269aa408e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 098/145] fix: assertPrototypeOf takes the object whose chain
 is asked about

---
 packages/asserts/src/property/assertPrototypeOf.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/property/assertPrototypeOf.ts b/packages/asserts/src/property/assertPrototypeOf.ts
index bbf249e..8739dad 100644
--- a/packages/asserts/src/property/assertPrototypeOf.ts
+++ b/packages/asserts/src/property/assertPrototypeOf.ts
@@ -7,11 +7,13 @@ import typeGuard from '../constants/typeGuard';
  *
  * @param value 要验证的值
  * @param variableName 该值的变量名
+ * @param target 要检查其原型链的另一个对象
  * @throws 如果不是则会抛出类型异常
  */
 export default function assertPrototypeOf<T = unknown>(
     value: unknown,
-    variableName: string
+    variableName: string,
+    target: unknown
 ): asserts value is T {
-    return typeGuard(value, variableName, isPrototypeOf);
+    return typeGuard(value, variableName, isPrototypeOf, target);
 }
-- 
2.43.0


From 4684627ccca3944a1489baf97cebfdc70faf71d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 099/145] fix: the predicates of error types answer false for a
 DOMException instead of throwing

---
 packages/types/src/error/isAggregateError.ts |  3 ++-
 packages/types/src/error/isError.ts          |  4 +++-
 packages/types/src/error/isEvalError.ts      |  3 ++-
 packages/types/src/error/isRangeError.ts     |  3 ++-
 packages/types/src/error/isReferenceError.ts |  3 ++-
 packages/types/src/error/isSyntaxError.ts    |  3 ++-
 packages/types/src/error/isTypeError.ts      |  3 ++-
 packages/types/src/error/isURIError.ts       |  3 ++-
 packages/types/src/error/prototypeName.ts    | 13 +++++++++++++
 9 files changed, 30 insertions(+), 8 deletions(-)
 create mode 100644 packages/types/src/error/prototypeName.ts

diff --git a/packages/types/src/error/isAggregateError.ts b/packages/types/src/error/isAggregateError.ts
index bd94887..7c6613c 100644
--- a/packages/types/src/error/isAggregateError.ts
+++ b/packages/types/src/error/isAggregateError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './prototypeName';
 
 /**
  * 是不是一个 `AggregateError` 对象
@@ -13,6 +14,6 @@ import isAnyError from './isAnyError';
 export default function isAggregateError(value: unknown): value is EvalError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'AggregateError'
+        prototypeName(value) === 'AggregateError'
     );
 }
diff --git a/packages/types/src/error/isError.ts b/packages/types/src/error/isError.ts
index 28a13b4..f633438 100644
--- a/packages/types/src/error/isError.ts
+++ b/packages/types/src/error/isError.ts
@@ -1,5 +1,7 @@
 import getTagEqual from '../type/getTagEqual';
 
+import prototypeName from './prototypeName';
+
 /**
  * 是不是一个 `Error` 对象
  *
@@ -10,6 +12,6 @@ import getTagEqual from '../type/getTagEqual';
 export default function isError(value: unknown): value is Error {
     return (
         getTagEqual(value, 'Error') &&
-        Object.getPrototypeOf(value).name === 'Error'
+        prototypeName(value) === 'Error'
     );
 }
diff --git a/packages/types/src/error/isEvalError.ts b/packages/types/src/error/isEvalError.ts
index cf74ba7..cba7b13 100644
--- a/packages/types/src/error/isEvalError.ts
+++ b/packages/types/src/error/isEvalError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './prototypeName';
 
 /**
  * 是不是一个 `EvalError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isEvalError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'EvalError'
+        isAnyError(value) && prototypeName(value) === 'EvalError'
     );
 }
diff --git a/packages/types/src/error/isRangeError.ts b/packages/types/src/error/isRangeError.ts
index 529b21a..a8e3c2d 100644
--- a/packages/types/src/error/isRangeError.ts
+++ b/packages/types/src/error/isRangeError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './prototypeName';
 
 /**
  * 是不是一个 `RangeError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isRangeError(value: unknown): value is RangeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'RangeError'
+        isAnyError(value) && prototypeName(value) === 'RangeError'
     );
 }
diff --git a/packages/types/src/error/isReferenceError.ts b/packages/types/src/error/isReferenceError.ts
index d5bcb01..d3d5b5d 100644
--- a/packages/types/src/error/isReferenceError.ts
+++ b/packages/types/src/error/isReferenceError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './prototypeName';
 
 /**
  * 是不是一个 `ReferenceError` 对象
@@ -11,6 +12,6 @@ export default function isReferenceError(
 ): value is ReferenceError {
     return (
         isAnyError(value) &&
-        Object.getPrototypeOf(value).name === 'ReferenceError'
+        prototypeName(value) === 'ReferenceError'
     );
 }
diff --git a/packages/types/src/error/isSyntaxError.ts b/packages/types/src/error/isSyntaxError.ts
index e8be054..2cbf5fd 100644
--- a/packages/types/src/error/isSyntaxError.ts
+++ b/packages/types/src/error/isSyntaxError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './prototypeName';
 
 /**
  * 是不是一个 `SyntaxError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isSyntaxError(value: unknown): value is SyntaxError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'SyntaxError'
+        isAnyError(value) && prototypeName(value) === 'SyntaxError'
     );
 }
diff --git a/packages/types/src/error/isTypeError.ts b/packages/types/src/error/isTypeError.ts
index f1e19be..b8622cc 100644
--- a/packages/types/src/error/isTypeError.ts
+++ b/packages/types/src/error/isTypeError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './prototypeName';
 
 /**
  * 是不是一个 `TypeError` 对象
@@ -8,6 +9,6 @@ import isAnyError from './isAnyError';
  */
 export default function isTypeError(value: unknown): value is TypeError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'TypeError'
+        isAnyError(value) && prototypeName(value) === 'TypeError'
     );
 }
diff --git a/packages/types/src/error/isURIError.ts b/packages/types/src/error/isURIError.ts
index cbf9b00..df478b3 100644
--- a/packages/types/src/error/isURIError.ts
+++ b/packages/types/src/error/isURIError.ts
@@ -1,4 +1,5 @@
 import isAnyError from './isAnyError';
+import prototypeName from './prototypeName';
 
 /**
  * 是不是一个 `URIError` 对象
@@ -12,6 +13,6 @@ import isAnyError from './isAnyError';
  */
 export default function isURIError(value: unknown): value is EvalError {
     return (
-        isAnyError(value) && Object.getPrototypeOf(value).name === 'URIError'
+        isAnyError(value) && prototypeName(value) === 'URIError'
     );
 }
diff --git a/packages/types/src/error/prototypeName.ts b/packages/types/src/error/prototypeName.ts
new file mode 100644
index 0000000..20668eb
--- /dev/null
+++ b/packages/types/src/error/prototypeName.ts
@@ -0,0 +1,13 @@
+/**
+ * 获取错误对象的原型上的 `name`
+ *
+ * @param value 错误对象
+ * @returns 返回原型上的 `name`，如果无法读取 (如 `DOMException`) 则返回 `undefined`
+ */
+export default function prototypeName(value: unknown): unknown {
+    try {
+        return Object.getPrototypeOf(value).name;
+    } catch {}
+
+    return undefined;
+}
-- 
2.43.0


From 5dd8665f3fb369b7c4ea0e55efba17c0af27f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 100/145] fix: isNumberValid answers false for values that
 cannot become a number

---
 packages/types/src/number/isNumberValid.ts | 27 +++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/types/src/number/isNumberValid.ts b/packages/types/src/number/isNumberValid.ts
index 3d404e3..3fcf4d3 100644
--- a/packages/types/src/number/isNumberValid.ts
+++ b/packages/types/src/number/isNumberValid.ts
@@ -88,12 +88,23 @@ export default function isNumberValid(
         allowEmptyString = false
     } = options;
 
-    return (
-        (implicit
-            ? !isUndefined(value)
-            : isNumber(value, allowNaN) ||
-              (isString(value) && (allowEmptyString || value.trim() !== ''))) &&
-        (allowNaN || !isNaN(Number(value).valueOf())) &&
-        (allowInfinity || !isInfinity(Number(value).valueOf()))
-    );
+    if (
+        implicit
+            ? isUndefined(value)
+            : !isNumber(value, allowNaN) &&
+              !(isString(value) && (allowEmptyString || value.trim() !== ''))
+    ) {
+        return false;
+    }
+
+    try {
+        const number = Number(value);
+
+        return (
+            (allowNaN || !isNaN(number)) &&
+            (allowInfinity || !isInfinity(number))
+        );
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From 5a5f1f16252161c640b65560e67130e01b7cfa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 101/145] fix: isDateValid answers false for values that cannot
 become a date

---
 packages/types/src/date/isDateValid.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/date/isDateValid.ts b/packages/types/src/date/isDateValid.ts
index 6eef625..9da0161 100644
--- a/packages/types/src/date/isDateValid.ts
+++ b/packages/types/src/date/isDateValid.ts
@@ -17,5 +17,9 @@ import isUndefined from '../nullable/isUndefined';
 export default function isDateValid<T = number | string | unknown[] | Date>(
     value: unknown
 ): value is T {
-    return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    try {
+        return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From f8c3f1f7c1633d4df81feb3410e31fd50581a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 102/145] fix: isWindowsPath answers in time and accepts names
 that only begin with a reserved word

---
 packages/path/src/isWindowsPath.ts     | 2 +-
 packages/path/src/windowsPathSource.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/path/src/isWindowsPath.ts b/packages/path/src/isWindowsPath.ts
index b771e71..52f9180 100644
--- a/packages/path/src/isWindowsPath.ts
+++ b/packages/path/src/isWindowsPath.ts
@@ -58,7 +58,7 @@ export default function isWindowsPath(path: string, extend: boolean = false) {
             dirNoReg.test(dir) ||
             dirSearchReg.test(dir) ||
             (dir !== '..' && dir.endsWith('.')) ||
-            dir.endsWith(' ')
+            /\s$/.test(dir)
         ) {
             return false;
         }
diff --git a/packages/path/src/windowsPathSource.ts b/packages/path/src/windowsPathSource.ts
index d66ab0a..782a406 100644
--- a/packages/path/src/windowsPathSource.ts
+++ b/packages/path/src/windowsPathSource.ts
@@ -13,6 +13,6 @@
  * @link [docs.microsoft](https://docs.microsoft.com/zh-cn/windows/win32/fileio/naming-a-file?redirectedfrom=MSDN)
  */
 const windowsPathSource =
-    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\(?!(CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(\\\\|$))[^<>:"/\\\\|?*\\r\\n\\u2028\\u2029]*)+';
 
 export default windowsPathSource;
-- 
2.43.0


From 61b5c1e5c11b845b0f655975f498f2787ca7b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 103/145] fix: isWindowsExtendedLengthPath accepts the lengths
 the prefix is for

---
 packages/path/src/isWindowsExtendedLengthPath.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/path/src/isWindowsExtendedLengthPath.ts b/packages/path/src/isWindowsExtendedLengthPath.ts
index b9c19df..d777d41 100644
--- a/packages/path/src/isWindowsExtendedLengthPath.ts
+++ b/packages/path/src/isWindowsExtendedLengthPath.ts
@@ -10,5 +10,5 @@ import isWindowsPath from './isWindowsPath';
 export default function isWindowsExtendedLengthPath(
     pathString: string
 ): boolean {
-    return isWindowsPath(pathString) && pathString.startsWith('\\\\?\\');
+    return isWindowsPath(pathString, true) && pathString.startsWith('\\\\?\\');
 }
-- 
2.43.0


From 2e883b06535075befad26fab146b86f7d22ea91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 104/145] fix: path normalize expands the home marker before
 resolving the parts of the path

---
 packages/path/src/normalize.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/path/src/normalize.ts b/packages/path/src/normalize.ts
index 1db41fa..ed87914 100644
--- a/packages/path/src/normalize.ts
+++ b/packages/path/src/normalize.ts
@@ -17,5 +17,8 @@ const homeDirectory = homedir();
  * @throw 如果 pathString 不是有效的路径字符串，则会抛出异常
  */
 export default function normalize(pathString: string): string {
-    return _normalize(pathString).replace(/^~(?=$|\/|\\)/, homeDirectory);
+    // 必须先替换 `~`，否则 `~/..` 和 `./~` 会指向其他的位置
+    return _normalize(
+        pathString.replace(/^~(?=$|\/|\\)/, () => homeDirectory)
+    );
 }
-- 
2.43.0


From b0e78f680ac1bbf29ca01aa9d5df0569368730e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 105/145] fix: windowsTaskList reads process names that hold
 several blanks, and lines that are no task

---
 packages/os/src/windows/taskList.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/os/src/windows/taskList.ts b/packages/os/src/windows/taskList.ts
index dcfc2ac..c33bf21 100644
--- a/packages/os/src/windows/taskList.ts
+++ b/packages/os/src/windows/taskList.ts
@@ -37,13 +37,20 @@ export default async function windowsTaskList(): Promise<WindowsTaskListResult>
     const { stdout } = await exec('tasklist /NH');
     const taskSplit = stdout.toString().trim().split('\n');
 
-    return taskSplit.map((task: string) => {
-        const splitChunk = task.trim().split(/\s{2,}/);
-        const [imageName, pidAndSession, sessionId, mem] = splitChunk;
-        const [pid, sessionName] = pidAndSession.split(/ /);
-        const memusage = mem.split(' ')[0].replace(/,/g, '');
+    // 映像名称中可能会有连续的空格，会话名称可能为空
+    const regExp = /^(.+) +(\d+) (\S*) +(\d+) +(\S*\d|N\/A)(?: \D+)?$/;
+
+    return taskSplit.flatMap((task: string) => {
+        const matched = regExp.exec(task.trim());
+
+        if (!matched) {
+            return [];
+        }
+
+        const [, imageName, pid, sessionName, sessionId, mem] = matched;
+        const memusage = mem.replace(/,/g, '');
         const session = { name: sessionName, id: sessionId };
 
-        return { imageName, pid, memusage, session };
+        return { imageName: imageName.trim(), pid, memusage, session };
     });
 }
-- 
2.43.0


From f3596c395123221c771b4d9a8a586ed6cf193164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 106/145] fix: killWindowsTask answers true when the task was
 ended, not when it was not

---
 packages/os/src/windows/killTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/killTask.ts b/packages/os/src/windows/killTask.ts
index 668785b..291dd88 100644
--- a/packages/os/src/windows/killTask.ts
+++ b/packages/os/src/windows/killTask.ts
@@ -19,5 +19,5 @@ export default async function killWindowsTask(
     const command = ['taskkill', '/F', '/T', '/IM', `"${imageName}"`];
     const executed = await exec(command).catch(() => ({ stderr: 'error' }));
 
-    return executed.stderr.length > 0;
+    return executed.stderr.length === 0;
 }
-- 
2.43.0


From 556633bcb8d4f58875137b38c4fbeb2a754b7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 107/145] fix: windowsLocal answers null when the language is
 not in the output

---
 packages/os/src/windows/local.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/local.ts b/packages/os/src/windows/local.ts
index 1138be8..3b22d1e 100644
--- a/packages/os/src/windows/local.ts
+++ b/packages/os/src/windows/local.ts
@@ -21,5 +21,5 @@ export default async function windowsLocal(): Promise<string | null> {
     const command = 'powershell.exe Get-UICulture';
     const { stdout } = await exec(command, { encoding: 'utf8' });
 
-    return (stdout as string).split('\n')[3].split(/ +/)[1];
+    return (stdout as string).split('\n')[3]?.split(/ +/)[1] ?? null;
 }
-- 
2.43.0


From 9c80d40e27b6edac5d0fec991a9cf66af971d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 108/145] fix: windowsMakeShortcut throws on other systems, as
 documented, instead of answering an error

---
 packages/os/src/windows/makeShortcut.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/makeShortcut.ts b/packages/os/src/windows/makeShortcut.ts
index 01492fc..f6d8a3e 100644
--- a/packages/os/src/windows/makeShortcut.ts
+++ b/packages/os/src/windows/makeShortcut.ts
@@ -85,7 +85,7 @@ export default async function windowsMakeShortcut(
     options?: ShortcutOptions
 ) {
     if (!isWindows) {
-        return new Error(
+        throw new Error(
             '[windowsMakeShortcut]: 当前不是 Windows 系统，无法执行操作'
         );
     }
-- 
2.43.0


From 4d69de8ab1e0f3ad61558c3062a2d904589880e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 109/145] fix: a shortcut to a file whose name begins with its
 only dot is named like the file (windowsMakeShortcut)

---
 packages/os/src/windows/makeShortcut.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/makeShortcut.ts b/packages/os/src/windows/makeShortcut.ts
index f6d8a3e..584709e 100644
--- a/packages/os/src/windows/makeShortcut.ts
+++ b/packages/os/src/windows/makeShortcut.ts
@@ -8,7 +8,7 @@ import { isWindows } from '../platform';
 import type { ShortcutOptions } from './types';
 
 const buildArgs = (pathString: string, options?: ShortcutOptions): string[] => {
-    const rawName = basename(pathString).replace(/(.*)\..*$/, '$1');
+    const rawName = basename(pathString).replace(/(.+)\..*$/, '$1');
     const newOptions: Required<ShortcutOptions> = Object.assign(
         {
             args: '',
-- 
2.43.0


From c3dc035d8ec611d7e6a96ddfb7f15c4d6be19c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 110/145] fix: isWSL recognises the kernel of the second
 version of the Windows subsystem

---
 packages/os/src/platform.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/platform.ts b/packages/os/src/platform.ts
index c70bc98..a32f708 100644
--- a/packages/os/src/platform.ts
+++ b/packages/os/src/platform.ts
@@ -12,4 +12,4 @@ export const isMacOS = osType === 'Darwin';
 export const isLinux = osType === 'Linux';
 
 /** 是不是 `Windows` 系统平台上的 `Linux` 子系统 */
-export const isWSL = isLinux && release().endsWith('Microsoft');
+export const isWSL = isLinux && release().toLowerCase().includes('microsoft');
-- 
2.43.0


From 3e08a89c70f9e922fd3f398b65ecbbf7efc22927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 111/145] fix: open finds the Windows shell in the Linux
 subsystem, where ComSpec is not set

---
 packages/process/src/open.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/open.ts b/packages/process/src/open.ts
index 4fc6f13..2eaa079 100644
--- a/packages/process/src/open.ts
+++ b/packages/process/src/open.ts
@@ -39,7 +39,7 @@ export default async function open(
 
     if (!command) {
         if (platform === 'win32') {
-            options.shell = process.env.ComSpec;
+            options.shell = process.env.ComSpec ?? 'cmd.exe';
 
             // 设置当前命令的标题为空，确保不会意外地将第一个参数解释为标题
             command = 'start ""';
-- 
2.43.0


From 0e16ad53ba9e7a930c3bb69ca14173b7083d19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 112/145] fix: isIp checks the whole text in every form of the
 address

---
 packages/regexp/src/isIp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bb54e3f..bc3e4f4 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,6 @@
 /** 验证 `IP` 地址的正则表达式 */
 const ipReg =
-    /^(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?$/i;
+    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 527333b5e25a22028434e48f0037617215b46813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 113/145] fix: isIp accepts the address whose groups are all
 left out

---
 packages/regexp/src/isIp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index bc3e4f4..5f617e5 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,6 @@
 /** 验证 `IP` 地址的正则表达式 */
 const ipReg =
-    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:))](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
+    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 4ad7e1733e9f46220f02d8d2f653aab35a5767da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 114/145] fix: isIp refuses an address that begins with one
 colon

---
 packages/regexp/src/isIp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index 5f617e5..56e735e 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,6 @@
 /** 验证 `IP` 地址的正则表达式 */
 const ipReg =
-    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){0,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
+    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 970f7a1696dd04fc0baa1f2964b9bcbd44e454ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 115/145] fix: isIp accepts groups left out before others that
 end in decimal notation

---
 packages/regexp/src/isIp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/regexp/src/isIp.ts b/packages/regexp/src/isIp.ts
index 56e735e..c63dfc6 100644
--- a/packages/regexp/src/isIp.ts
+++ b/packages/regexp/src/isIp.ts
@@ -1,6 +1,6 @@
 /** 验证 `IP` 地址的正则表达式 */
 const ipReg =
-    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
+    /^(?:(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|((?!(?:[^:\]]*:){7})([0-9a-f]{1,4}:){1,4}:([0-9a-f]{1,4}:){1,4}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)|\[(?:(?:[0-9a-f]{1,4}:){7}[0-9a-f]{1,4}|(([0-9a-f]{1,4}:){6}:[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){5}:([0-9a-f]{1,4}:)?[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){4}:([0-9a-f]{1,4}:){0,2}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){3}:([0-9a-f]{1,4}:){0,3}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){2}:([0-9a-f]{1,4}:){0,4}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){6}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(([0-9a-f]{1,4}:){1,5}:((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|(::([0-9a-f]{1,4}:){0,5}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|((?!(?:[^:\]]*:){7})([0-9a-f]{1,4}:){1,4}:([0-9a-f]{1,4}:){1,4}((\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b)\.){3}(\b((25[0-5])|(1\d{2})|(2[0-4]\d)|(\d{1,2}))\b))|([0-9a-f]{1,4}::([0-9a-f]{1,4}:){0,5}[0-9a-f]{1,4})|(::([0-9a-f]{1,4}:){0,6}[0-9a-f]{1,4})|(([0-9a-f]{1,4}:){1,7}:)|::)](?::(?:6553[0-5]|655[0-2][0-9]|65[0-4][0-9]{2}|6[0-4][0-9]{3}|[1-5][0-9]{4}|[1-9][0-9]{1,3}|[0-9]))?)$/i;
 
 /**
  * 是不是一个 `IP` 地址
-- 
2.43.0


From 9e93eaf0b97cf92404f9dcaa1641d50b5ccdf147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 116/145] fix: isEmail measures the parts of an address whose
 quoted part holds an at sign

---
 packages/regexp/src/isEmail.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isEmail.ts b/packages/regexp/src/isEmail.ts
index e4b6e60..1a4dbef 100644
--- a/packages/regexp/src/isEmail.ts
+++ b/packages/regexp/src/isEmail.ts
@@ -19,7 +19,8 @@ export default function isEmail(email: string): boolean {
         return false;
     }
 
-    const [username, domains] = email.split('@');
+    // 引号中可能会有 `@`，而域名中不会有
+    const index = email.lastIndexOf('@');
 
-    return username.length <= 64 && domains.length <= 255;
+    return index <= 64 && email.length - index - 1 <= 255;
 }
-- 
2.43.0


From 4d31b58817baa794f33bdaf4950910f876958e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 117/145] fix: isURI answers false for escapes that cannot be
 decoded

---
 packages/regexp/src/isURI.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/isURI.ts b/packages/regexp/src/isURI.ts
index 1bfd833..629ee5e 100644
--- a/packages/regexp/src/isURI.ts
+++ b/packages/regexp/src/isURI.ts
@@ -45,5 +45,14 @@ import { uri as sourceURI } from './source';
 export default function isURI(uri: string): boolean {
     const reg = new RegExp(`^${sourceURI}$`);
 
-    return reg.test(uri) && encodeURI(decodeURI(uri)).length <= 2e3;
+    if (!reg.test(uri)) {
+        return false;
+    }
+
+    try {
+        return encodeURI(decodeURI(uri)).length <= 2e3;
+    } catch {
+        // 不能解码的转义序列
+        return false;
+    }
 }
-- 
2.43.0


From 81d97a1e599bcc7110413e9f15f236dabb642ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 118/145] fix: splitChunk refuses a pad position other than
 start and end whatever the list

---
 packages/array/src/splitChunk.ts | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/packages/array/src/splitChunk.ts b/packages/array/src/splitChunk.ts
index f35399b..35e3fbf 100644
--- a/packages/array/src/splitChunk.ts
+++ b/packages/array/src/splitChunk.ts
@@ -36,6 +36,16 @@ export default function splitChunk<T>(
         );
     }
 
+    if (
+        !isUndefined(padPosition) &&
+        !isEqual(padPosition, 'start') &&
+        !isEqual(padPosition, 'end')
+    ) {
+        throw new TypeError(
+            `[splitChunk] padPosition 的值必须是 start 或 end: ${padPosition}`
+        );
+    }
+
     if (length >= value.length) {
         return [value];
     }
@@ -56,15 +66,9 @@ export default function splitChunk<T>(
         return a.concat(b);
     }
 
-    if (isEqual(padPosition, 'end')) {
-        const n = (length - d) * f;
-        const a = splitByStep(value.slice(0, n), f);
-        const b = splitByStep(value.slice(n), f + 1);
-
-        return a.concat(b);
-    }
+    const n = (length - d) * f;
+    const a = splitByStep(value.slice(0, n), f);
+    const b = splitByStep(value.slice(n), f + 1);
 
-    throw new TypeError(
-        `[splitChunk] padPosition 的值必须是 start 或 end: ${padPosition}`
-    );
+    return a.concat(b);
 }
-- 
2.43.0


From faa0a126672649897cea787323d633c3154f486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 119/145] fix: isMultiDimensional refuses the dimensions 0 and
 NaN too

---
 packages/array/src/dimension/isMultiDimensional.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/array/src/dimension/isMultiDimensional.ts b/packages/array/src/dimension/isMultiDimensional.ts
index fa10575..d5f875a 100644
--- a/packages/array/src/dimension/isMultiDimensional.ts
+++ b/packages/array/src/dimension/isMultiDimensional.ts
@@ -1,4 +1,4 @@
-import { isArray, isArrayFilled, isUint } from '@curong/types';
+import { isArray, isArrayFilled, isUint, isUndefined } from '@curong/types';
 
 const handle = (
     dimension: number | undefined,
@@ -38,7 +38,7 @@ export default function isMultiDimensional<T extends unknown[][]>(
     let level = 1;
     let internal = value;
 
-    if (dimension && (!isUint(dimension) || dimension < 2)) {
+    if (!isUndefined(dimension) && (!isUint(dimension) || dimension < 2)) {
         throw new TypeError(
             `[isMultiDimensional] level 不是一个有效的大于 1 的正整数: ${dimension}`
         );
-- 
2.43.0


From 5136413f825302d0f97baa79ad0bacb868b1d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 120/145] =?UTF-8?q?fix:=20quoteClosed=20knows=20the=20apos?=
 =?UTF-8?q?trophe=20of=20words=20like=20we're=20and=20they'll=20(two=20let?=
 =?UTF-8?q?ters=20after=20it),=20as=20quotePair=20does:=20=E5=AD=97?=
 =?UTF-8?q?=E7=AC=A6=E4=B8=B2=E4=B8=A4=E4=BE=A7?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/string/src/quote/quoteClosed.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/quote/quoteClosed.ts b/packages/string/src/quote/quoteClosed.ts
index 7854659..b2eb992 100644
--- a/packages/string/src/quote/quoteClosed.ts
+++ b/packages/string/src/quote/quoteClosed.ts
@@ -52,7 +52,7 @@ export default function quoteClosed(str: string) {
                 break;
 
             case "'":
-                equal && str.slice(i - 1, i + 3).match(word) ? i-- : setToken();
+                equal && str.slice(i - 1, i + 4).match(word) ? i-- : setToken();
                 break;
 
             case '"':
-- 
2.43.0


From 320e28b4fbd63d008246daa45baa77fb6cfcac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 121/145] fix: execAll ends for empty matches of patterns with
 the v flag, too: the position behind a surrogate pair

---
 packages/regexp/src/execAll.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index bb66322..23258de 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -194,7 +194,8 @@ export default function execAll(
             // 如果捕获到的是空字符串，则需要手动向后移动一个字符
             if (match[0] === '') {
                 const isPair =
-                    regexp.unicode && str.codePointAt(match.index)! > 0xffff;
+                    /[uv]/.test(regexp.flags) &&
+                    str.codePointAt(match.index)! > 0xffff;
 
                 regexp.lastIndex = match.index + (isPair ? 2 : 1);
             }
-- 
2.43.0


From f47effaad886d4aff0e98d98f1aba7fc8ef9af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 122/145] =?UTF-8?q?fix:=20toSentences=20cuts=20behind=20a?=
 =?UTF-8?q?=20sentence=20that=20ends=20as=20the=20last=20one=20does=20(?=
 =?UTF-8?q?=E6=88=91=E5=BE=88=E5=A5=BD=E3=80=82=E4=BD=A0=E5=BE=88=E5=A5=BD?=
 =?UTF-8?q?=E3=80=82),=20and=20adds=20no=20blank=20before=20marks?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/string/src/sentences/toSentences.ts | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index 7084339..5e1417f 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -54,9 +54,6 @@ const periodReg = /(?:(?:^| \S+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
 /** 验证末尾省略号的正则表达式 */
 const ellipsisReg = /[.。]{2,}$/;
 
-/** 验证中文的正则表达式 */
-const zhReg = /[\u4e00-\u9fff]/;
-
 /**
  * 将一个字符串拆分为句子数组
  *
@@ -84,22 +81,20 @@ export default function toSentences(
         value,
         options,
         (value: string, index: number, origin: string) =>
-            value.replace(periodReg, (v, $1) => {
+            value.replace(periodReg, (v, offset: number) => {
                 const w = v.trim();
 
                 if (
                     abbreviationReg.test(w) ||
                     (!ellipsis && ellipsisReg.test(w)) ||
-                    (index === origin.length && origin.endsWith(v))
+                    // 整个字符串的末尾
+                    index - value.length + offset + v.length === origin.length
                 ) {
                     return v;
                 }
 
-                if (w.length > 1 && !zhReg.test($1)) {
-                    return ` ${w}\n`;
-                }
-
-                return `${w}\n`;
+                // 只去除后面的空白
+                return `${v.trimEnd()}\n`;
             })
     ).split('\n');
 }
-- 
2.43.0


From 8b4ae3390e88c58363b6235cf0ba5be26f482e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 123/145] fix: toSentences cuts behind a Chinese full stop
 inside a run without blanks that ends with a Latin one

---
 packages/string/src/sentences/toSentences.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index 5e1417f..e48b123 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -49,7 +49,7 @@ const abbreviationReg = new RegExp(
  * very e.g. good i.e. very q. 去。中文，句号.
  * ```
  */
-const periodReg = /(?:(?:^| \S+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
+const periodReg = /(?:(?:^| [^\s。！？；]+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
 
 /** 验证末尾省略号的正则表达式 */
 const ellipsisReg = /[.。]{2,}$/;
-- 
2.43.0


From 1ae66ecef1c5b4996cf9840cc90cdcd42626d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 124/145] =?UTF-8?q?fix:=20corrector=20puts=20a=20comma=20o?=
 =?UTF-8?q?r=20a=20Chinese=20full=20stop=20between=20single=20Chinese=20ch?=
 =?UTF-8?q?aracters=20too=20(=E4=B8=AD=20=E4=B8=AD=20=E4=B8=AD),=20not=20o?=
 =?UTF-8?q?nly=20between=20every=20other=20pair?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 packages/string/src/corrector/plugins/fullStop.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/corrector/plugins/fullStop.ts b/packages/string/src/corrector/plugins/fullStop.ts
index e28a025..43db9cd 100644
--- a/packages/string/src/corrector/plugins/fullStop.ts
+++ b/packages/string/src/corrector/plugins/fullStop.ts
@@ -1,7 +1,7 @@
 import { symbolGroup as g, symbolMap } from '../constants';
 
 /** 两侧包含中文 */
-const bssReg = new RegExp(`(${g}) *(\\.|:+) *(${g})`, 'g');
+const bssReg = new RegExp(`(${g}) *(\\.|:+) *(?=${g})`, 'g');
 
 /** 左侧包含中文，必须保证标点后有一个空格 */
 const lsReg = new RegExp(`(${g}) *([,;!?~]+)( +|$)`, 'g');
@@ -10,7 +10,7 @@ const lsReg = new RegExp(`(${g}) *([,;!?~]+)( +|$)`, 'g');
 const colonReg = new RegExp(`(${g}): *([()a-zA-Z0-9])`, 'g');
 
 /** 验证中文和中文之间的空格的正则表达式 */
-const bscReg = new RegExp(`(${g}) +(${g})`, 'g');
+const bscReg = new RegExp(`(${g}) +(?=${g})`, 'g');
 
 /** 转换标点 */
 const convert = (symbols: string): string => symbolMap.get(symbols) ?? symbols;
@@ -22,9 +22,9 @@ const convert = (symbols: string): string => symbolMap.get(symbols) ?? symbols;
  * @returns 返回转换好的字符串
  */
 export function convertFullStop(value: string): string {
-    value = value.replace(bscReg, '$1，$2');
+    value = value.replace(bscReg, '$1，');
     value = value.replace(colonReg, '$1：$2');
-    value = value.replace(bssReg, (_, l, s, r) => `${l}${convert(s)}${r}`);
+    value = value.replace(bssReg, (_, l, s) => `${l}${convert(s)}`);
 
     return value.replace(lsReg, (_, v, s) => `${v}${convert(s)}`);
 }
-- 
2.43.0


From 83d9f2dfb394a9ac53fefa3b854878b5c9128d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 125/145] fix: corrector separates the symbols U+2700 to U+27BF
 from Chinese, not the Chinese dash: the range was written with a dash in
 place of a hyphen

---
 packages/string/src/corrector/plugins/fullSpace.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/corrector/plugins/fullSpace.ts b/packages/string/src/corrector/plugins/fullSpace.ts
index 4da60b2..66d8c58 100644
--- a/packages/string/src/corrector/plugins/fullSpace.ts
+++ b/packages/string/src/corrector/plugins/fullSpace.ts
@@ -2,7 +2,7 @@ import { mapReplace } from '@curong/regexp';
 
 import { symbolGroup as g, symbol as s } from '../constants';
 
-const ss = '\u00A1-\u00FF\u0370-\u03FF\u2150-\u218F\u2700—\u27BF';
+const ss = '\u00A1-\u00FF\u0370-\u03FF\u2150-\u218F\u2700-\u27BF';
 
 // 加减乘除运算符
 //
-- 
2.43.0


From d22373279d2f7441d303b2a34d59f8cef5f16b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 126/145] fix: corrector knows kana and the other ideographic
 blocks without enhanceRule, too: the list of blocks was joined with commas
 into a pattern that matched nothing

---
 packages/string/src/corrector/constants.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/corrector/constants.ts b/packages/string/src/corrector/constants.ts
index 13036e0..08418ef 100644
--- a/packages/string/src/corrector/constants.ts
+++ b/packages/string/src/corrector/constants.ts
@@ -18,7 +18,7 @@ export const symbolArray = [
 
 /** 验证中日韩文字和标点的正则表达式 */
 export const chkPunReg = new RegExp(
-    `(?:${symbolArray}|${han}|${chkPunctuation})+`,
+    `(?:[${symbolArray.join('')}]|${han}|${chkPunctuation})+`,
     'g'
 );
 
-- 
2.43.0


From 1e77c89b6b6e1700d0981cf7662c5f1e3b9003f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 127/145] fix: lackAttrs finds numeric attributes: keys are
 texts, so a number was always reported as lacking

---
 packages/util/src/lackAttrs.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/util/src/lackAttrs.ts b/packages/util/src/lackAttrs.ts
index bde5ada..d25b925 100644
--- a/packages/util/src/lackAttrs.ts
+++ b/packages/util/src/lackAttrs.ts
@@ -1,4 +1,4 @@
-import { isArrayFilled, isNullOrUndefined } from '@curong/types';
+import { isArrayFilled, isNullOrUndefined, isSymbol } from '@curong/types';
 
 import allAttrs from './allAttrs';
 
@@ -30,5 +30,5 @@ export default function lackAttrs(
 
     const attrSet = new Set(allAttrs(value));
 
-    return attributes.filter(v => !attrSet.has(v));
+    return attributes.filter(v => !attrSet.has(isSymbol(v) ? v : String(v)));
 }
-- 
2.43.0


From 43e08faee7222bd47c6403baa4d88c29fe52630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 128/145] fix: toFiniteNumber returns the default for values
 that cannot be converted (symbols, objects without a primitive), and converts
 big integers

---
 packages/number/src/toFiniteNumber.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/number/src/toFiniteNumber.ts b/packages/number/src/toFiniteNumber.ts
index e3c00e4..0534e76 100644
--- a/packages/number/src/toFiniteNumber.ts
+++ b/packages/number/src/toFiniteNumber.ts
@@ -26,5 +26,11 @@ export default function toFiniteNumber(
     value: any,
     defaultValue: number
 ): number {
-    return isFinite((value = +value)) ? value : defaultValue;
+    try {
+        value = Number(value);
+    } catch {
+        return defaultValue;
+    }
+
+    return isFinite(value) ? value : defaultValue;
 }
-- 
2.43.0


From 28a8d485d8108837f64585179ea7368715126f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 129/145] fix: queryDNS returns no address, not an empty one,
 for a host without addresses

---
 packages/request/src/dns/queryDNS.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/dns/queryDNS.ts b/packages/request/src/dns/queryDNS.ts
index 9ea08fe..a236b80 100644
--- a/packages/request/src/dns/queryDNS.ts
+++ b/packages/request/src/dns/queryDNS.ts
@@ -48,7 +48,9 @@ export default async function queryDNS(
         const ret = await request(requestOptions);
 
         if (isNull(ret.error) && isEqual(ret.response.statusCode, 200)) {
-            address[host].push(...ret.data.toString().split(/;/));
+            address[host].push(
+                ...ret.data.toString().split(/;/).filter(Boolean)
+            );
         }
     }
 
-- 
2.43.0


From 79a885397e563d099e8824ecebf4ad4894cd8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 130/145] fix: toSentences cuts behind a sentence of one word,
 too, at the beginning and behind another sentence (Yes. It is so. Really?
 Fine.); list markers (1. a.) stay with what follows

---
 packages/string/src/sentences/toSentences.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index e48b123..2a6ff60 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -49,7 +49,7 @@ const abbreviationReg = new RegExp(
  * very e.g. good i.e. very q. 去。中文，句号.
  * ```
  */
-const periodReg = /(?:(?:^| [^\s。！？；]+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
+const periodReg = /(?:(?:^| [^\s。！？；]+|(?<![^\s。！？；])(?!(?:\d+|[a-z])\. )[^\s。！？；]+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
 
 /** 验证末尾省略号的正则表达式 */
 const ellipsisReg = /[.。]{2,}$/;
-- 
2.43.0


From e45ff0dd3692166ea4cbd4b0da5c523bc830eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 131/145] fix: once runs the function once also when the
 function calls the wrapper while it runs; it ran again for every such call

---
 packages/function/src/limit/once.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/limit/once.ts b/packages/function/src/limit/once.ts
index 7c801c2..50e3b4f 100644
--- a/packages/function/src/limit/once.ts
+++ b/packages/function/src/limit/once.ts
@@ -31,8 +31,14 @@ function once<T extends (...args: any[]) => any, A extends unknown[]>(
 
     return ((...params: Parameters<T>): ReturnType<T> => {
         if (!executed) {
-            result = fn.apply(fn, args.concat(params));
             executed = true;
+
+            try {
+                result = fn.apply(fn, args.concat(params));
+            } catch (e) {
+                executed = false;
+                throw e;
+            }
         }
         return result as ReturnType<T>;
     }) as T;
-- 
2.43.0


From 67015d946c58bf9fd4f45fd4d840c07373b6ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 132/145] fix: toggle switches also when a value is NaN or the
 values are 0 and -0

---
 packages/function/src/select/toggle.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/select/toggle.ts b/packages/function/src/select/toggle.ts
index 9f6327a..bfd8fb6 100644
--- a/packages/function/src/select/toggle.ts
+++ b/packages/function/src/select/toggle.ts
@@ -38,7 +38,9 @@ export default function toggle<L, R>(
 
         /** 切换当前值 */
         toggle() {
-            value = value === defaultValue ? reverseValue : defaultValue;
+            value = Object.is(value, defaultValue)
+                ? reverseValue
+                : defaultValue;
             return value;
         },
 
-- 
2.43.0


From 28484cc1511f87308ee90f071717f5ed01853d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 133/145] fix: toLowerCaseKey keeps a property named __proto__;
 it became the prototype of the result

---
 packages/object/src/keys/toLowerCaseKey.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/object/src/keys/toLowerCaseKey.ts b/packages/object/src/keys/toLowerCaseKey.ts
index d7b399e..9831323 100644
--- a/packages/object/src/keys/toLowerCaseKey.ts
+++ b/packages/object/src/keys/toLowerCaseKey.ts
@@ -26,25 +26,26 @@ export default function toLowerCaseKey(
     isCover: boolean = true
 ): ObjectType {
     const set = new Set();
+    const entries: [PropertyKey, any][] = [];
 
-    return Reflect.ownKeys(object).reduce((memo, key) => {
+    Reflect.ownKeys(object).forEach(key => {
         const value = object[key];
 
         // 如果属性名是数字或者 `symbol`，就直接赋值
         if (isSymbol(key) || isNumber(key)) {
-            memo[key] = value;
-            return memo;
+            entries.push([key, value]);
+            return;
         }
 
         key = key.toLocaleLowerCase();
 
         if (isCover) {
-            memo[key] = value;
+            entries.push([key, value]);
         } else if (!set.has(key)) {
-            memo[key] = value;
+            entries.push([key, value]);
             set.add(key);
         }
+    });
 
-        return memo;
-    }, {} as ObjectType);
+    return Object.fromEntries(entries);
 }
-- 
2.43.0


From 38ad55a88928538a7b9438a0359ea75069760f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 134/145] fix: toObject keeps an item whose key is __proto__;
 it was lost or became the prototype of the result

---
 packages/array/src/convert/toObject.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/packages/array/src/convert/toObject.ts b/packages/array/src/convert/toObject.ts
index 1b20eb4..7a5f824 100644
--- a/packages/array/src/convert/toObject.ts
+++ b/packages/array/src/convert/toObject.ts
@@ -27,11 +27,7 @@ export default function toObject<T, U>(
     makeKey: (value: T) => string,
     makeValue: (value: T) => U
 ): Record<string, U> {
-    const result: Record<string, U> = {};
-
-    for (const value of array) {
-        result[makeKey(value)] = makeValue(value);
-    }
-
-    return result;
+    return Object.fromEntries(
+        Array.from(array, value => [makeKey(value), makeValue(value)])
+    );
 }
-- 
2.43.0


From 93e11956c9db93a347e79b3e71146db3840239f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 135/145] fix: parseCookie and parseSetCookie keep a cookie
 named __proto__; it was lost or became the prototype of the result

---
 packages/cookie/src/cookie/parse.ts    |  8 ++++----
 packages/cookie/src/setCookie/parse.ts | 11 +++++------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index bc5cc2b..8965e8e 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -67,7 +67,7 @@ export default function parseCookie(
     cookie: string,
     decode?: ParseCookieOptions['decode']
 ): { [key: string]: string } {
-    const result: { [key: string]: string } = {};
+    const result: [string, string][] = [];
 
     if (!isStringFilled(cookie) || !cookie.includes('=')) {
         throw new TypeError(`[parse]: cookie不是一个字符串, "${cookie}"`);
@@ -98,14 +98,14 @@ export default function parseCookie(
 
         if (isString(key)) {
             if (isString(value)) {
-                result[key] = value;
+                result.push([key, value]);
                 key = null;
                 value = null;
             } else if (i === len - 1) {
-                result[key] = getDecode(cookie.slice(star), decode);
+                result.push([key, getDecode(cookie.slice(star), decode)]);
             }
         }
     }
 
-    return result;
+    return Object.fromEntries(result);
 }
diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 50fb3c9..daa1dbd 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -167,12 +167,11 @@ export default function parseSetCookie(
         return cookies.map((str: string) => parseChunk(str, decode));
     }
 
-    return cookies.reduce(
-        (cookie, str) => {
+    return Object.fromEntries(
+        cookies.map((str: string) => {
             const v = parseChunk(str, decode);
-            cookie[v.name] = v;
-            return cookie;
-        },
-        {} as Record<string, SetCookieItem>
+
+            return [v.name, v];
+        })
     );
 }
-- 
2.43.0


From 86da749ff6673e2ffc07ac7963b1336da69d70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 136/145] fix: parseSetCookie: an attribute called name or
 value does not replace the name or value of the cookie

---
 packages/cookie/src/setCookie/parse.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index daa1dbd..a72c791 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -37,6 +37,11 @@ const setCookieValue = (cookie: SetCookieItem, key: string, value: string) => {
             cookie.sameSite = value;
             break;
 
+        // cookie 自己的名称和值不是属性
+        case 'name':
+        case 'value':
+            break;
+
         default:
             cookie[key] = value;
             break;
-- 
2.43.0


From a198553a46628bf3f9d344c332060ebccc838804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 137/145] fix: maxRecursionDepth answers for arrays with very
 many elements (call stack exceeded) and for arrays of empty slots only
 (-Infinity)

---
 packages/array/src/maxRecursionDepth.ts | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/packages/array/src/maxRecursionDepth.ts b/packages/array/src/maxRecursionDepth.ts
index 2180ff2..055bcfb 100644
--- a/packages/array/src/maxRecursionDepth.ts
+++ b/packages/array/src/maxRecursionDepth.ts
@@ -41,12 +41,7 @@ export default function maxRecursionDepth<T extends any[]>(
         return _depth(value, 1);
     }
 
-    if (value.length === 0) {
-        return 1;
-    }
-
-    return Math.max.apply(
-        null,
-        value.reduce((m, v) => m.concat(maxRecursionDepth(v) + 1), [])
+    return (
+        value.reduce<number>((m, v) => Math.max(m, maxRecursionDepth(v)), 0) + 1
     );
 }
-- 
2.43.0


From af6ad265ba9e28770635704bdcdbd5e5f472e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 138/145] fix: readLnk answers the target of a shortcut: the
 text on the error stream is never null, the target came with a line end, and
 a quote in the path ended it

---
 packages/fs/src/readLnk.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 0b480ae..6b50ed4 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -1,10 +1,10 @@
-import { exec } from 'child_process';
+import { execFile } from 'child_process';
 import { normalize } from 'path';
 import { platform } from 'process';
 import { promisify } from 'util';
 
 import { format } from '@curong/term';
-import { isNull } from '@curong/types';
+import { isStringFilled } from '@curong/types';
 
 /**
  * 拼接适用于 `Windows` 的命令
@@ -13,7 +13,10 @@ import { isNull } from '@curong/types';
  * @returns 返回拼接好的命令字符串
  */
 function getCommand(pathString: string): string {
-    return `(New-Object -COM WScript.Shell).CreateShortcut('${pathString}').TargetPath;`;
+    // `PowerShell` 单引号字符串中的单引号需要写两次
+    const path = pathString.replace(/'/g, "''");
+
+    return `(New-Object -COM WScript.Shell).CreateShortcut('${path}').TargetPath;`;
 }
 
 /**
@@ -36,12 +39,13 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    const command = `powershell.exe -command ${getCommand(pathString)}`;
-    const { stdout, stderr } = await promisify(exec)(command, {
-        encoding: 'utf8'
-    });
+    const { stdout, stderr } = await promisify(execFile)(
+        'powershell.exe',
+        ['-command', getCommand(pathString)],
+        { encoding: 'utf8' }
+    );
 
-    if (!isNull(stderr)) {
+    if (isStringFilled(stderr)) {
         throw format({
             name: 'readLnk',
             message: '"lnk" 文件解析失败',
@@ -49,5 +53,5 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    return stdout;
+    return stdout.trimEnd();
 }
-- 
2.43.0


From e527d2f000d60da56518bd7b2a542295eb9a9de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 139/145] fix: fileList and findDir list every folder once:
 shortcuts that lead back did not end, and what two ways lead to was listed
 twice; a folder may have more files than a call takes arguments

---
 packages/fs/src/fileList.ts | 39 +++++++++++++++++++++++++++----------
 packages/fs/src/findDir.ts  | 34 ++++++++++++++++++--------------
 2 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index 306f37c..21a4e03 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -1,5 +1,5 @@
 import { Dirent, promises } from 'fs';
-import { extname, join } from 'path';
+import { extname, join, resolve } from 'path';
 
 import { format } from '@curong/term';
 
@@ -22,9 +22,30 @@ export default async function fileList(
     dirName: string,
     options?: FileListOptions
 ): Promise<Array<string>> {
+    const files: Set<string> = new Set();
+
+    await listInto(dirName, options, files, new Set());
+
+    return Array.from(files);
+}
+
+/**
+ * @param files 找到的文件
+ * @param folders 已经读取过的文件夹，快捷方式有可能会指向它们
+ */
+async function listInto(
+    dirName: string,
+    options: FileListOptions | undefined,
+    files: Set<string>,
+    folders: Set<string>
+): Promise<void> {
     const { depthOnce = false } = options ?? {};
+    const folder = resolve(dirName);
+
+    if (folders.has(folder)) return;
+
+    folders.add(folder);
 
-    const files: Array<string> = [];
     const dirents: Array<Dirent> | void = await promises
         .readdir(dirName, {
             encoding: 'utf8',
@@ -38,14 +59,14 @@ export default async function fileList(
             });
         });
 
-    if (!dirents || !dirents.length) return files;
+    if (!dirents || !dirents.length) return;
 
     for (let i = 0, len = dirents.length; i < len; i++) {
         const dirent: Dirent = dirents[i];
         const { name } = dirent;
 
         if (depthOnce) {
-            files.push(name);
+            files.add(name);
             continue;
         }
 
@@ -58,10 +79,10 @@ export default async function fileList(
 
             if (extname(targetPath) === '') {
                 // 如果是文件夹
-                files.push(...(await fileList(targetPath)));
+                await listInto(targetPath, undefined, files, folders);
             } else {
                 // 不是文件夹，那么就是文件了
-                files.push(targetPath);
+                files.add(targetPath);
             }
 
             continue;
@@ -69,11 +90,9 @@ export default async function fileList(
 
         // 是文件夹
         if (dirent.isDirectory()) {
-            files.push(...(await fileList(absolutePath)));
+            await listInto(absolutePath, undefined, files, folders);
         } else {
-            files.push(absolutePath);
+            files.add(absolutePath);
         }
     }
-
-    return files;
 }
diff --git a/packages/fs/src/findDir.ts b/packages/fs/src/findDir.ts
index 594c62d..e520699 100644
--- a/packages/fs/src/findDir.ts
+++ b/packages/fs/src/findDir.ts
@@ -1,5 +1,5 @@
 import { Dirent, promises } from 'fs';
-import { extname, join } from 'path';
+import { extname, join, resolve } from 'path';
 
 import { format } from '@curong/term';
 import { isArrayFilled, isStringFilled } from '@curong/types';
@@ -12,13 +12,22 @@ import readLnk from './readLnk';
  * @param pathString 当前的文件夹
  * @param folders 要查找的文件夹的名字的数组
  * @param data 要返回的结果都可以向里面存，参数必须传递
+ * @param visited 已经读取过的文件夹，快捷方式有可能会指向它们
  */
 async function findDirCall(
     pathString: string,
     folders: string[],
-    data: string[]
-): Promise<string[]> {
-    const files: Array<string> = [];
+    data: Set<string>,
+    visited: Set<string> = new Set()
+): Promise<void> {
+    const folder = resolve(pathString);
+
+    if (visited.has(folder)) {
+        return;
+    }
+
+    visited.add(folder);
+
     const dirents: Array<Dirent> | null = await promises
         .readdir(pathString, {
             encoding: 'utf8',
@@ -27,7 +36,7 @@ async function findDirCall(
         .catch(() => null);
 
     if (!isArrayFilled(dirents)) {
-        return files;
+        return;
     }
 
     for (let i: number = 0, len: number = dirents.length; i < len; i++) {
@@ -38,11 +47,11 @@ async function findDirCall(
         // 如果是文件夹
         if (dirent.isDirectory()) {
             if (folders.includes(name)) {
-                data.push(absolutePath);
+                data.add(absolutePath);
                 continue;
             }
 
-            files.push(...(await findDirCall(absolutePath, folders, data)));
+            await findDirCall(absolutePath, folders, data, visited);
 
             continue;
         }
@@ -54,17 +63,12 @@ async function findDirCall(
 
             if (extname(targetPath) === '') {
                 // 如果是文件夹
-                files.push(...(await findDirCall(targetPath, folders, data)));
-            } else {
-                // 不是文件夹，那么就是文件了
-                files.push(targetPath);
+                await findDirCall(targetPath, folders, data, visited);
             }
 
             continue;
         }
     }
-
-    return files;
 }
 
 /**
@@ -80,7 +84,7 @@ export default async function findDir(
     pathString: string,
     folders: string | string[] = []
 ): Promise<string[]> {
-    const pathStrings: string[] = [];
+    const pathStrings: Set<string> = new Set();
 
     if (!isStringFilled(pathString)) {
         throw format({
@@ -96,5 +100,5 @@ export default async function findDir(
 
     await findDirCall(pathString, folders, pathStrings);
 
-    return pathStrings;
+    return Array.from(pathStrings);
 }
-- 
2.43.0


From 7d5f440c48532bec578b9bc70f9ecb165b3bdbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 140/145] fix: toSentences: what follows a quote or bracket
 without a blank is no sentence of its own (behind 79a8853)

---
 packages/string/src/sentences/toSentences.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/sentences/toSentences.ts b/packages/string/src/sentences/toSentences.ts
index 2a6ff60..22577cb 100644
--- a/packages/string/src/sentences/toSentences.ts
+++ b/packages/string/src/sentences/toSentences.ts
@@ -51,6 +51,9 @@ const abbreviationReg = new RegExp(
  */
 const periodReg = /(?:(?:^| [^\s。！？；]+|(?<![^\s。！？；])(?!(?:\d+|[a-z])\. )[^\s。！？；]+|[\u4e00-\u9fff])[.!?;]+ |[。！？；]+) */gi;
 
+/** 验证引号或括号后面是不是句点的正则 */
+const startReg = /^(?: |[\u4e00-\u9fff]?[.!?;。！？；])/;
+
 /** 验证末尾省略号的正则表达式 */
 const ellipsisReg = /[.。]{2,}$/;
 
@@ -83,12 +86,15 @@ export default function toSentences(
         (value: string, index: number, origin: string) =>
             value.replace(periodReg, (v, offset: number) => {
                 const w = v.trim();
+                const start = index - value.length + offset;
 
                 if (
                     abbreviationReg.test(w) ||
                     (!ellipsis && ellipsisReg.test(w)) ||
+                    // 紧跟在引号或括号后面的单词
+                    (offset === 0 && start > 0 && !startReg.test(v)) ||
                     // 整个字符串的末尾
-                    index - value.length + offset + v.length === origin.length
+                    start + v.length === origin.length
                 ) {
                     return v;
                 }
-- 
2.43.0


From 32242d8178e98474c75e64a5adc5ffb42c1260a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 141/145] fix: collectItems: a call that hands in no promise
 completes no batch

---
 packages/function/src/control/collectItems.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/control/collectItems.ts b/packages/function/src/control/collectItems.ts
index f5ab603..8fcadef 100644
--- a/packages/function/src/control/collectItems.ts
+++ b/packages/function/src/control/collectItems.ts
@@ -78,14 +78,18 @@ export default function collectItems(options?: any) {
         done: boolean;
         value: Awaited<T>[] | undefined;
     }> => {
-        if (isPromise(payload)) {
+        const isAccepted = isPromise(payload);
+
+        if (isAccepted) {
             promises.push(payload);
         }
 
         if (
             !isOverOnce &&
             ((isUndefined(total) && isDoneOnce) ||
-                (isUint(total) && !(promises.length % total)))
+                (isAccepted &&
+                    isUint(total) &&
+                    !(promises.length % total)))
         ) {
             const items = isAccumulate ? promises : promises.splice(0);
 
-- 
2.43.0


From 26bdf84ab5e27170ead479130c60b5f37a5b2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 142/145] fix: amountInWords: zeros in front of the number are
 not read

---
 packages/number/src/amount/amountInWords.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 059ed0e..b65e20d 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -15,7 +15,7 @@ const isNilNumber = (value: number) => isZero(value) || isNaN(value);
 /** 转换整数部分 */
 const convertInteger = (amount: string): string => {
     const parts = amount.split('.');
-    const integer = parts[0].replace('-', '');
+    const integer = parts[0].replace(/^[+-]?0*/, '');
     const integerNumbers = parseInt(integer) ? integer.split('').reverse() : [];
 
     if (integerNumbers.length > MAX_INT_LENGTH) {
-- 
2.43.0


From e346d079a8ef8c6f402a0f0d0479767c6ab4ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 143/145] fix: copy keeps sharing and cycles through the errors
 of an AggregateError, and the name and message of a DOMException

---
 packages/util/src/copy.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index c33eef3..220cc31 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -207,10 +207,18 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         case 'SyntaxError':
         case 'TypeError':
         case 'URIError': {
-            const ins =
-                value instanceof AggregateError
-                    ? new AggregateError(value.errors.map(copy), value.message)
-                    : new (Object.getPrototypeOf(value).constructor)();
+            const { constructor } = Object.getPrototypeOf(value);
+            let ins: any;
+
+            if (typeTag === 'DOMException') {
+                ins = new constructor(value.message, value.name);
+            } else if (value instanceof AggregateError) {
+                // `errors` 由下面的 `copyAttrs` 拷贝，以保留共享引用和循环引用
+                ins = new AggregateError([]);
+                Reflect.deleteProperty(ins, 'errors');
+            } else {
+                ins = new constructor();
+            }
 
             weak.set(value, ins);
             const o = copyAttrs(value, ins, weak);
-- 
2.43.0


From 207993d43440e86e306a27c1941d2101efde8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 144/145] fix: timeoutLog keeps the hours, minutes and seconds
 when only milliseconds follow whole days

---
 packages/function/src/timeout/timeoutLog.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/timeoutLog.ts b/packages/function/src/timeout/timeoutLog.ts
index c3f7fcc..7da25b8 100644
--- a/packages/function/src/timeout/timeoutLog.ts
+++ b/packages/function/src/timeout/timeoutLog.ts
@@ -39,7 +39,7 @@ export default function timeoutLog(
         } else {
             formatString =
                 `${date.getDate() - 1}天 ${hours}:${minutes}:${seconds}${millisecond}`.replace(
-                    ' 00:00:00',
+                    / 00:00:00$/,
                     ''
                 );
         }
-- 
2.43.0


From a75002135fded7c7e9e29b976ccc0c381731dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 145/145] fix: writeFile writes an empty object or list as JSON
 too

---
 packages/fs/src/writeFile.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/writeFile.ts b/packages/fs/src/writeFile.ts
index ec81bc2..fba355d 100644
--- a/packages/fs/src/writeFile.ts
+++ b/packages/fs/src/writeFile.ts
@@ -2,7 +2,7 @@ import { promises } from 'fs';
 import { dirname } from 'path';
 
 import { format } from '@curong/term';
-import { isArrayFilled, isObjectFilled } from '@curong/types';
+import { isArray, isObject } from '@curong/types';
 
 import mkdir from './mkdir';
 import type { WriteFileOptions } from './types';
@@ -40,7 +40,7 @@ export default async function writeFile(
         ...options
     };
 
-    if (options.isFormat && (isObjectFilled(data) || isArrayFilled(data))) {
+    if (options.isFormat && (isObject(data) || isArray(data))) {
         try {
             data = JSON.stringify(data);
         } catch (error) {
-- 
2.43.0

