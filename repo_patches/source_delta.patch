From 295d7c1be4cf584bc5299b861a43c1748d148657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 01/82] fix: packing and unpacking an empty sequence of septets

---
 gsmmodem/pdu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ee15ebc..55bc632 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -726,7 +726,9 @@ def packSeptets(octets, padBits=0):
         octets = iter(octets)
     shift = padBits
     if padBits == 0:
-        prevSeptet = next(octets)
+        prevSeptet = next(octets, None)
+        if prevSeptet == None:
+            return result # nothing to pack
     else:
         prevSeptet = 0x00
     for octet in octets:
@@ -785,7 +787,7 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
         
         if i == numberOfSeptets:
             break
-    if shift == 7:
+    if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
         if b:
             # The final septet value still needs to be unpacked
-- 
2.43.0


From d5dcf67b191b5de6b9fe2bf69193d32abd3ea540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 02/82] fix: GSM-7 extension code 0x0A is form feed

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 55bc632..ace6d6f 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -26,7 +26,7 @@ else: #pragma: no cover
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
 GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
-GSM7_EXTENDED = {chr(0xFF): 0x0A,
+GSM7_EXTENDED = {chr(0x0C): chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
                  #SS2: chr(0x1B),
-- 
2.43.0


From afdd669981e4ee3aea25abdde1575154c5855804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 03/82] fix: do not encode the escape control character as a
 GSM-7 character

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ace6d6f..dd59a8f 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -676,7 +676,7 @@ def encodeGsm7(plaintext, discardInvalid=False):
         plaintext = str(plaintext)
     for char in plaintext:
         idx = GSM7_BASIC.find(char)
-        if idx != -1:
+        if idx != -1 and idx != 0x1B: # 0x1B is the escape code; it does not represent a character
             result.append(idx)
         elif char in GSM7_EXTENDED:
             result.append(0x1B) # ESC - switch to extended table
-- 
2.43.0


From 904169367d31fa7ed5683a566d5aeeff1f70c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 04/82] fix: split concatenated messages by encoded length,
 keeping extension characters whole

---
 gsmmodem/pdu.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index dd59a8f..bbb349f 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -284,11 +284,13 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         alphabet = 0x00 # GSM-7    
         
     # Check if message should be concatenated
-    if len(text) > MAX_MESSAGE_LENGTH[alphabet]:
+    textLength = len(encodedText) if alphabet == 0x00 else len(text)
+    if textLength > MAX_MESSAGE_LENGTH[alphabet]:
         # Text too long for single PDU - add "concatenation" User Data Header
         concatHeaderPrototype = Concatenation()
         concatHeaderPrototype.reference = reference
-        pduCount = int(len(text) / MAX_MESSAGE_LENGTH[alphabet]) + 1
+        pduTexts = _splitText(text, alphabet)
+        pduCount = len(pduTexts)
         concatHeaderPrototype.parts  = pduCount
         tpduFirstOctet |= 0x40
     else:
@@ -308,10 +310,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
             concatHeader.number = i + 1
-            if alphabet == 0x00:
-                pduText = text[i*153:(i+1) * 153]
-            elif alphabet == 0x08:
-                pduText = text[i * 67 : (i + 1) * 67]
+            pduText = pduTexts[i]
             udh.extend(concatHeader.encode())
         else:
             pduText = text
@@ -354,6 +353,27 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
+def _splitText(text, alphabet):
+    """ Splits the text of a concatenated message into the texts of its parts
+
+    GSM-7 parts hold up to 153 septets (characters of the extension table take two
+    septets, which stay in the same part), UCS2 parts up to 67 characters
+
+    :rtype: list
+    """
+    maxLength = 153 if alphabet == 0x00 else 67
+    parts = []
+    start = length = 0
+    for i, char in enumerate(text):
+        charLength = 2 if alphabet == 0x00 and char in GSM7_EXTENDED else 1
+        if length + charLength > maxLength:
+            parts.append(text[start:i])
+            start = i
+            length = 0
+        length += charLength
+    parts.append(text[start:])
+    return parts
+
 def decodeSmsPdu(pdu):
     """ Decodes SMS pdu data and returns a tuple in format (number, text)
     
-- 
2.43.0


From d4ad388371fdad581a611972ff24ab8a524bf028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:08 +0000
Subject: [PATCH 05/82] fix: length of alphanumeric addresses is the amount of
 useful semi-octets

---
 gsmmodem/pdu.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index bbb349f..b07b329 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import sys, codecs, math
 from datetime import datetime, timedelta, tzinfo
 from copy import copy
+from itertools import islice
 from .exceptions import EncodingError
 
 # For Python 3 support
@@ -568,8 +569,9 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
         ton = (toa & 0x70) # bits 6,5,4 of type-of-address == type-of-number
         if ton == 0x50: 
             # Alphanumberic number            
+            numSeptets = addressLen * 4 // 7 # addressLen is the amount of useful semi-octets
             addressLen = int(math.ceil(addressLen / 2.0))
-            septets = unpackSeptets(byteIter, addressLen)
+            septets = _unpackExactSeptets(byteIter, numSeptets, addressLen)
             addressValue = decodeGsm7(septets)
             return (addressValue, (addressLen + 2))
         else:
@@ -624,8 +626,9 @@ def _encodeAddressField(address, smscField=False):
             toa &= 0xFE # switch to "unknown" numbering plan
             alphaNumeric = True
     if  alphaNumeric:
-        addressValue = packSeptets(encodeGsm7(address, False))
-        addressLen = len(addressValue) * 2        
+        septets = encodeGsm7(address, False)
+        addressValue = packSeptets(septets)
+        addressLen = int(math.ceil(len(septets) * 7 / 4.0)) # amount of useful semi-octets
     else:
         addressValue = encodeSemiOctets(address)
         if smscField:            
@@ -814,6 +817,20 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
             result.append(b)        
     return result
 
+def _unpackExactSeptets(septets, numberOfSeptets, numberOfOctets, prevOctet=None, shift=7):
+    """ Unpacks a known amount of septets that are packed into the specified amount of octets
+
+    The bits after the last septet in the final octet are not mistaken for another septet, and a
+    final septet with the value 0 is not mistaken for unused bits.
+
+    :rtype: bytearray
+    """
+    octets = bytearray(islice(septets, numberOfOctets))
+    result = unpackSeptets(octets, None, prevOctet, shift)[:numberOfSeptets]
+    if len(octets) == numberOfOctets and len(result) < numberOfSeptets:
+        result.append(0) # value of the final septet
+    return result
+
 def decodeUcs2(byteIter, numBytes):
     """ Decodes UCS2-encoded text from the specified byte iterator, up to a maximum of numBytes """
     userData = []
-- 
2.43.0


From 9f2e83d59e4dfbafe0c454bd928fa9bc2398aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 06/82] fix: decode exactly the septets of the message text
 given by the user data length

---
 gsmmodem/pdu.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index b07b329..021f3bb 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -455,15 +455,22 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
         if dataCoding == 0x00: # GSM-7
             # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
             shift = ((udhLen + 1) * 8) % 7 # "fill bits" needed to make the UDH end on a septet boundary
-            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
-            prevOctet = next(byteIter)
-            shift += 1
 
     if dataCoding == 0x00: # GSM-7
+        # The user data length is in septets, and includes the UDH and its fill bits
+        numOctets = (userDataLen * 7 + 7) // 8
+        numSeptets = userDataLen
         if udhPresent:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift)
+            numOctets -= udhLen + 1
+            numSeptets -= ((udhLen + 1) * 8 + 6) // 7
+        if numSeptets <= 0:
+            userDataSeptets = bytearray() # no message text
+        elif udhPresent and shift > 0:
+            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
+            prevOctet = next(byteIter)
+            userDataSeptets = _unpackExactSeptets(byteIter, numSeptets, numOctets - 1, prevOctet, shift + 1)
         else:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen)
+            userDataSeptets = _unpackExactSeptets(byteIter, numSeptets, numOctets)
         result['text'] = decodeGsm7(userDataSeptets)
     elif dataCoding == 0x02: # UCS2
         result['text'] = decodeUcs2(byteIter, userDataLen)
-- 
2.43.0


From bd558916f043f1a3dd0f44443a15443f44320831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 07/82] fix: GSM-7 code 0x5F is the section sign, not the grave
 accent

---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 021f3bb..deeba56 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -26,7 +26,7 @@ else: #pragma: no cover
     rawStrToByteArray = bytearray
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
-GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
+GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà')
 GSM7_EXTENDED = {chr(0x0C): chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
-- 
2.43.0


From 5fcea73cd725541551ffd671f1abb3162ec62ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 08/82] fix: TPDU length of an SMS-SUBMIT PDU that specifies an
 SMSC number

---
 gsmmodem/pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index deeba56..975d4ce 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -306,6 +306,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
             pdu.extend(_encodeAddressField(smsc, smscField=True))
         else:
             pdu.append(0x00) # Don't supply an SMSC number - use the one configured in the device 
+        smscLength = len(pdu) # the SMSC field is not part of the TPDU
     
         udh = bytearray()
         if concatHeaderPrototype != None:
@@ -350,7 +351,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(userDataLength)
         pdu.extend(userData) # User Data (message payload)
-        tpdu_length = len(pdu) - 1
+        tpdu_length = len(pdu) - smscLength
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
-- 
2.43.0


From c41033f156893ac00830defd72df1703a989c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 09/82] fix: decode no semi-octets if the number of octets is
 limited to 0

---
 gsmmodem/pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 975d4ce..ec9ee9b 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -675,6 +675,8 @@ def decodeSemiOctets(encodedNumber, numberOfOctets=None):
     if type(encodedNumber) in (str, bytes):
         encodedNumber = bytearray(codecs.decode(encodedNumber, 'hex_codec'))
     i = 0
+    if numberOfOctets == 0:
+        return ''
     for octet in encodedNumber:        
         hexVal = hex(octet)[2:].zfill(2)   
         number.append(hexVal[1])
-- 
2.43.0


From d2d186aaf887eb55b7f9abf9352768010d2ec35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 10/82] fix: raise EncodingError for truncated and otherwise
 invalid PDUs

---
 gsmmodem/pdu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ec9ee9b..6965442 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -389,9 +389,15 @@ def decodeSmsPdu(pdu):
     """ 
     try:
         pdu = toByteArray(pdu)
+        return _decodeSmsPdu(pdu)
+    except EncodingError:
+        raise
     except Exception as e:
-        # Python 2 raises TypeError, Python 3 raises binascii.Error
+        # Not a hex string (Python 2 raises TypeError, Python 3 raises binascii.Error), or PDU is truncated or invalid
         raise EncodingError(e)
+
+def _decodeSmsPdu(pdu):
+    """ Decodes the octets of an SMS PDU; see decodeSmsPdu() """
     result = {}
     pduIter = iter(pdu)
  
-- 
2.43.0


From b28779e142a0efc5f4813a81e1b9acc0492edefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:54 +0000
Subject: [PATCH 11/82] fix: only a complete final result line ends a response

---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ac445f5..aa7f0cb 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT)$')
+    RESPONSE_TERM = re.compile(r'^(OK|ERROR|\+CM[ES] ERROR: \d+|COMMAND NOT SUPPORT)\s*$')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From 8a894ed4c2db6e4b23ac3fd5342eabfca3cbad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 12/82] fix: reading thread failed if a response line arrived
 while the waiting thread timed out

---
 gsmmodem/serial_comms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index aa7f0cb..d8427df 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -59,14 +59,15 @@ class SerialComms(object):
 
     def _handleLineRead(self, line, checkForResponseTerm=True):
         #print 'sc.hlineread:',line
-        if self._responseEvent and not self._responseEvent.is_set():
+        responseEvent = self._responseEvent # may be reset by the waiting thread at any time
+        if responseEvent and not responseEvent.is_set():
             # A response event has been set up (another thread is waiting for this response)
             self._response.append(line)
             if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
                 # End of response reached; notify waiting thread
                 #print 'response:', self._response
                 self.log.debug('response: %s', self._response)
-                self._responseEvent.set()
+                responseEvent.set()
         else:            
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
-- 
2.43.0


From 3a8e3c71cf8a3f5b31a5eeadccb412b2b51d67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:46 +0000
Subject: [PATCH 13/82] fix: pass on a notification that is followed by a blank
 line at once

---
 gsmmodem/serial_comms.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index d8427df..a1b8fbc 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -71,12 +71,15 @@ class SerialComms(object):
         else:            
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
-            if self.serial.inWaiting() == 0:
-                # No more chars on the way for this notification - notify higher-level callback
-                #print 'notification:', self._notification
-                self.log.debug('notification: %s', self._notification)
-                self.notifyCallback(self._notification)
-                self._notification = []                
+            self._checkNotificationComplete()
+
+    def _checkNotificationComplete(self):
+        if self.serial.inWaiting() == 0:
+            # No more chars on the way for this notification - notify higher-level callback
+            #print 'notification:', self._notification
+            self.log.debug('notification: %s', self._notification)
+            self.notifyCallback(self._notification)
+            self._notification = []
 
     def _placeholderCallback(self, *args, **kwargs):
         """ Placeholder callback function (does nothing) """
@@ -102,6 +105,9 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
+                        elif len(self._notification) > 0:
+                            # Blank line after a notification
+                            self._checkNotificationComplete()
                     elif self._expectResponseTermSeq:
                         if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
                             line = ''.join(rxBuffer) 
-- 
2.43.0


From 9aeeb3aa10fa611145b54c3b7642184e308a3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 14/82] fix: a command that could not be written does not wait
 for a response

---
 gsmmodem/serial_comms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index a1b8fbc..987b0aa 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -131,7 +131,13 @@ class SerialComms(object):
                     self._expectResponseTermSeq = list(expectedResponseTermSeq) 
                 self._response = []
                 self._responseEvent = threading.Event()                
-                self.serial.write(data)
+                try:
+                    self.serial.write(data)
+                except Exception:
+                    # Nothing was sent; do not wait for a response
+                    self._responseEvent = None
+                    self._expectResponseTermSeq = False
+                    raise
                 if self._responseEvent.wait(timeout):
                     self._responseEvent = None
                     self._expectResponseTermSeq = False
-- 
2.43.0


From c7397ce3f57b32cf8e97e49b38fbefff9ee9eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:41 +0000
Subject: [PATCH 15/82] fix: recognise error results that are followed by
 blanks

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e468f34..3535394 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -414,7 +414,7 @@ class GsmModem(SerialComms):
         if self._writeWait > 0: # Sleep a bit if required (some older modems suffer under load)            
             time.sleep(self._writeWait)
         if waitForResponse:
-            cmdStatusLine = responseLines[-1]
+            cmdStatusLine = responseLines[-1].rstrip()
             if parseError:
                 if 'ERROR' in cmdStatusLine:
                     cmErrorMatch = self.CM_ERROR_REGEX.match(cmdStatusLine)
-- 
2.43.0


From 03333bd0e005f0d556646f3b92ad364f04af05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:33 +0000
Subject: [PATCH 16/82] fix: end the extra pause after a busy modem if the
 command finally fails

---
 gsmmodem/modem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 3535394..d8bec65 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -428,12 +428,14 @@ class GsmModem(SerialComms):
                             # Retry the command after waiting a bit
                             self.log.debug('Device/SIM busy error detected; self._writeWait adjusted to %fs', self._writeWait)
                             time.sleep(self._writeWait)
-                            result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
-                            self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
-                            if errorCode == 515:
-                                self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
-                            else:
-                                self._writeWait = 0 # The modem was just waiting for the SIM card
+                            try:
+                                result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
+                            finally:
+                                self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
+                                if errorCode == 515:
+                                    self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
+                                else:
+                                    self._writeWait = 0 # The modem was just waiting for the SIM card
                             return result
                         if errorType == 'CME':
                             raise CmeError(data, int(errorCode))
-- 
2.43.0


From a46264020d2040c21d6ed96254aac68eb7a877c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 17/82] fix: do not fail to connect if +CFUN? returns a list of
 values

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index d8bec65..41fb5c3 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -190,8 +190,8 @@ class GsmModem(SerialComms):
             cfun = int(lineStartingWith('+CFUN:', self.write('AT+CFUN?'))[7:]) # example response: +CFUN: 1
             if cfun != 1:
                 self.write('AT+CFUN=1')
-        except CommandError:
-            pass # just ignore if the +CFUN command isn't supported
+        except (CommandError, ValueError):
+            pass # just ignore if the +CFUN command isn't supported, or only lists its supported values
                 
         self.write('AT+CMEE=1') # enable detailed error messages (even if it has already been set - ATZ may reset this)
         if not pinCheckComplete:
-- 
2.43.0


From 7cd81c75f11571772e426dc3a6e04b001d517ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:35 +0000
Subject: [PATCH 18/82] fix: detect missing SMS storage support whatever the
 number of memories

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 41fb5c3..9c9a4a1 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -316,7 +316,7 @@ class GsmModem(SerialComms):
             cpmsSupport = cpmsLine.split(' ', 1)[1].split('),(')
             # Do a sanity check on the memory types returned - Nokia S60 devices return empty strings, for example
             for memItem in cpmsSupport:
-                if len(memItem) == 0:
+                if len(memItem.strip('()')) == 0:
                     # No support for reading stored SMS via AT commands - probably a Nokia S60
                     self._smsReadSupported = False
                     self.log.warning('Invalid SMS message storage support returned by modem. SMS reading unavailable. Response was: "%s"', cpmsLine)
-- 
2.43.0


From 1124fed62421bd909c4772fe39eda7700f66056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:25 +0000
Subject: [PATCH 19/82] fix: do not select empty message memories

---
 gsmmodem/modem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 9c9a4a1..c42fcd2 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -332,7 +332,10 @@ class GsmModem(SerialComms):
                                 self._smsMemReadDelete = memType
                             cpmsItems[i] = memType
                             break
-                self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                if '' in cpmsItems: # Leave the memories alone for which no preferred type is available
+                    del cpmsItems[cpmsItems.index(''):]
+                if cpmsItems:
+                    self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
             del cpmsSupport
             del cpmsLine
         
-- 
2.43.0


From fffff938b1437bce4a37b3a9f7ad5f0989c5387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:11 +0000
Subject: [PATCH 20/82] fix: strip blanks from the names of the supported
 commands

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c42fcd2..0cd108d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -512,7 +512,7 @@ class GsmModem(SerialComms):
                 commands = response[0]
                 if commands.startswith('+CLAC'):
                     commands = commands[6:] # remove the +CLAC: prefix before splitting
-                return commands.split(',')
+                return [cmd.strip() for cmd in commands.split(',') if cmd.strip() != '']
             elif len(response) > 2: # Multi-line response
                 return [cmd.strip() for cmd in response[:-1]]
             else:
-- 
2.43.0


From 6eb5526b7b8902791f9f4487eeacf16f018d8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:08 +0000
Subject: [PATCH 21/82] fix: do not repeat message text as a command if the
 modem is busy

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0cd108d..577f4d9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -424,7 +424,7 @@ class GsmModem(SerialComms):
                     if cmErrorMatch:
                         errorType = cmErrorMatch.group(1)
                         errorCode = int(cmErrorMatch.group(2))
-                        if errorCode == 515 or errorCode == 14:
+                        if (errorCode == 515 or errorCode == 14) and writeTerm == '\r': # message text can not be repeated without a new prompt
                             # 515 means: "Please wait, init or command processing in progress."
                             # 14 means "SIM busy"
                             self._writeWait += 0.2 # Increase waiting period temporarily
-- 
2.43.0


From 7178b4cb4df59bb782f6ecc984f831790395c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:32 +0000
Subject: [PATCH 22/82] fix: selecting a message memory and using it is one
 operation for other threads

---
 gsmmodem/modem.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 577f4d9..03c7795 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -2,7 +2,7 @@
 
 """ High-level API classes for an attached GSM modem """
 
-import sys, re, logging, weakref, time, threading, abc, codecs
+import sys, re, logging, weakref, time, threading, abc, codecs, functools
 from datetime import datetime
 
 from .serial_comms import SerialComms
@@ -23,6 +23,15 @@ else: #pragma: no cover
     dictItemsIter = dict.iteritems
 
 
+def _exclusive(method):
+    """ Decorator for methods that issue several commands which belong together: keeps the commands of other threads out """
+    @functools.wraps(method)
+    def exclusiveMethod(self, *args, **kwargs):
+        with self._txLock:
+            return method(self, *args, **kwargs)
+    return exclusiveMethod
+
+
 class Sms(object):
     """ Abstract SMS message base class """
     __metaclass__ = abc.ABCMeta
@@ -766,6 +775,7 @@ class GsmModem(SerialComms):
             for sms in messages:
                 self.smsReceivedCallback(sms)
 
+    @_exclusive
     def listStoredSms(self, status=Sms.STATUS_ALL, memory=None, delete=False):
         """ Returns SMS messages currently stored on the device/SIM card.
         
@@ -1000,8 +1010,9 @@ class GsmModem(SerialComms):
         if cmtiMatch:
             msgMemory = cmtiMatch.group(1)
             msgIndex = cmtiMatch.group(2)
-            sms = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            with self._txLock: # the message must be deleted from the memory it has been read from
+                sms = self.readStoredSms(msgIndex, msgMemory)
+                self.deleteStoredSms(msgIndex)
             self.smsReceivedCallback(sms)
     
     def _handleSmsStatusReport(self, notificationLine):
@@ -1011,8 +1022,9 @@ class GsmModem(SerialComms):
         if cdsiMatch:
             msgMemory = cdsiMatch.group(1)
             msgIndex = cdsiMatch.group(2)
-            report = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            with self._txLock: # the report must be deleted from the memory it has been read from
+                report = self.readStoredSms(msgIndex, msgMemory)
+                self.deleteStoredSms(msgIndex)
             # Update sent SMS status if possible            
             if report.reference in self.sentSms:                
                 self.sentSms[report.reference].report = report
@@ -1023,6 +1035,7 @@ class GsmModem(SerialComms):
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
     
+    @_exclusive
     def readStoredSms(self, index, memory=None):
         """ Reads and returns the SMS message at the specified index
         
@@ -1077,6 +1090,7 @@ class GsmModem(SerialComms):
             else:
                 raise CommandError('Invalid PDU type for readStoredSms(): {0}'.format(smsDict['type']))
     
+    @_exclusive
     def deleteStoredSms(self, index, memory=None):
         """ Deletes the SMS message stored at the specified index in modem/SIM card memory
         
@@ -1090,6 +1104,7 @@ class GsmModem(SerialComms):
         self._setSmsMemory(readDelete=memory)
         self.write('AT+CMGD={0},0'.format(index))
     
+    @_exclusive
     def deleteMultipleStoredSms(self, delFlag=4, memory=None):
         """ Deletes all SMS messages that have the specified read status.
         
-- 
2.43.0


From 54f1dc4b29dd259152b14fd26c811322426b8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:24 +0000
Subject: [PATCH 23/82] fix: sending a message is one operation for other
 threads

---
 gsmmodem/modem.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 03c7795..873e02f 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -653,6 +653,19 @@ class GsmModem(SerialComms):
         :raise CommandError: if an error occurs while attempting to send the message
         :raise TimeoutException: if the operation times out
         """
+        sms = self._submitSms(destination, text, sendFlash)
+        if waitForDeliveryReport:
+            self._smsStatusReportEvent = threading.Event()
+            if self._smsStatusReportEvent.wait(deliveryTimeout):
+                self._smsStatusReportEvent = None
+            else: # Response timed out
+                self._smsStatusReportEvent = None
+                raise TimeoutException()
+        return sms
+
+    @_exclusive
+    def _submitSms(self, destination, text, sendFlash):
+        """ Hands an SMS text message to the modem; no other commands are accepted between its parts """
         if self._smsTextMode:
             self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
             result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
@@ -670,13 +683,6 @@ class GsmModem(SerialComms):
         sms = SentSms(destination, text, reference)
         # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
         self.sentSms[reference] = sms
-        if waitForDeliveryReport:
-            self._smsStatusReportEvent = threading.Event()
-            if self._smsStatusReportEvent.wait(deliveryTimeout):
-                self._smsStatusReportEvent = None
-            else: # Response timed out
-                self._smsStatusReportEvent = None
-                raise TimeoutException()
         return sms
 
     def sendUssd(self, ussdString, responseTimeout=15):
-- 
2.43.0


From dee0763b343ca896a887da134128fcea77d636c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:28 +0000
Subject: [PATCH 24/82] fix: keep quarters of an hour in text mode time zones

---
 gsmmodem/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 1008e5c..0afdb73 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -41,7 +41,7 @@ def parseTextModeTimeStr(timeStr):
     :rtype: datetime.datetime
     """
     msgTime = timeStr[:-3]
-    tzOffsetHours = int(int(timeStr[-3:]) * 0.25)
+    tzOffsetHours = int(timeStr[-3:]) * 0.25
     return datetime.strptime(msgTime, '%y/%m/%d,%H:%M:%S').replace(tzinfo=SimpleOffsetTzInfo(tzOffsetHours))
 
 def lineStartingWith(string, lines):
-- 
2.43.0


From 0fa7f2d2dab37458fc898cd97e1d8e1a42c10a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 25/82] fix: only RING and +CRING notifications announce an
 incoming call

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 873e02f..3b5a8b9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -881,7 +881,7 @@ class GsmModem(SerialComms):
         :param lines The lines that were read
         """
         for line in lines:
-            if 'RING' in line:
+            if line.startswith('RING') or line.startswith('+CRING'):
                 # Incoming call (or existing call is ringing)
                 self._handleIncomingCall(lines)
                 return
-- 
2.43.0


From 8496c00729a0331315b8239c1b4374a3dd9abdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:24 +0000
Subject: [PATCH 26/82] fix: handle all notifications that are received at once

---
 gsmmodem/modem.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 3b5a8b9..b1d8921 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -878,7 +878,30 @@ class GsmModem(SerialComms):
     def __threadedHandleModemNotification(self, lines):
         """ Implementation of _handleModemNotification() to be run in a separate thread
         
-        :param lines The lines that were read
+        :param lines The lines that were read (one or more notifications)
+        """
+        while len(lines) > 0:
+            count = 1 # number of lines of the first notification
+            if lines[0].startswith('RING') or lines[0].startswith('+CRING'):
+                # The caller ID belongs to the incoming call
+                if len(lines) > 1 and lines[1].startswith('+CLIP'):
+                    count = 2
+            elif lines[0].startswith('+CUSD'):
+                # The message may contain line breaks, and may be followed by further +CUSD notifications
+                while count < len(lines) and (''.join(lines[:count]).count('"') % 2 == 1 or lines[count].startswith('+CUSD')):
+                    count += 1
+            notification, lines = lines[:count], lines[count:]
+            try:
+                self._handleSingleModemNotification(notification)
+            except Exception:
+                if len(lines) > 0:
+                    self._handleModemNotification(lines) # the remaining notifications are not affected
+                raise
+
+    def _handleSingleModemNotification(self, lines):
+        """ Handler for a single unsolicited notification
+
+        :param lines The lines of the notification
         """
         for line in lines:
             if line.startswith('RING') or line.startswith('+CRING'):
-- 
2.43.0


From 3dcd3118eb7e0680f19191d4a56460fe2f20715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 27/82] fix: header of the next message ends a listed message
 without valid PDU

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b1d8921..0772d72 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -835,7 +835,7 @@ class GsmModem(SerialComms):
             readPdu = False
             result = self.write('AT+CMGL={0}'.format(status))
             for line in result:
-                if not readPdu:
+                if not readPdu or cmglRegex.match(line): # the next header ends a message without a valid PDU
                     cmglMatch = cmglRegex.match(line)
                     if cmglMatch:
                         msgIndex = int(cmglMatch.group(1))
-- 
2.43.0


From 43443702face309ac04d34c41b4ac21934d0eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 28/82] fix: listing messages stored for sending (PDU mode)

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0772d72..a2808b3 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -851,8 +851,9 @@ class GsmModem(SerialComms):
                             sms = ReceivedSms(self, int(msgStat), smsDict['number'], smsDict['time'], smsDict['text'], smsDict['smsc'])
                         elif smsDict['type'] == 'SMS-STATUS-REPORT':
                             sms = StatusReport(self, int(msgStat), smsDict['reference'], smsDict['number'], smsDict['time'], smsDict['discharge'], smsDict['status'])
-                        else:
-                            raise CommandError('Invalid PDU type for readStoredSms(): {0}'.format(smsDict['type']))
+                        else: # SMS-SUBMIT: message stored for sending
+                            sms = Sms(smsDict['number'], smsDict['text'], smsDict['smsc'])
+                            sms.status = int(msgStat)
                         messages.append(sms)
                         delMessages.add(msgIndex)
                         readPdu = False
-- 
2.43.0


From 95c3911e13a370801b154f7ebaf870742daa6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 29/82] fix: empty messages were left out when listing in text
 mode

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a2808b3..88b4716 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -815,7 +815,7 @@ class GsmModem(SerialComms):
                 cmglMatch = cmglRegex.match(line)                
                 if cmglMatch:
                     # New message; save old one if applicable
-                    if msgIndex != None and len(msgLines) > 0:
+                    if msgIndex != None:
                         msgText = '\n'.join(msgLines)
                         msgLines = []
                         messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
@@ -825,7 +825,7 @@ class GsmModem(SerialComms):
                 else:
                     if line != 'OK':
                         msgLines.append(line)
-            if msgIndex != None and len(msgLines) > 0:
+            if msgIndex != None:
                 msgText = '\n'.join(msgLines)
                 msgLines = []
                 messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-- 
2.43.0


From b7dcc6995b535f931f0978b00c00a2b6c7cba138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 30/82] fix: listing stored messages and status reports in text
 mode

---
 gsmmodem/modem.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 88b4716..cee946b 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -801,7 +801,8 @@ class GsmModem(SerialComms):
         messages = []
         delMessages = set()
         if self._smsTextMode:
-            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,(?:"([^"]+)")?$') # messages stored for sending have no time
+            cmglReportRegex = re.compile(r'^\+CMGL: (\d+),"([^"]+)",\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
                     statusStr = key
@@ -818,17 +819,26 @@ class GsmModem(SerialComms):
                     if msgIndex != None:
                         msgText = '\n'.join(msgLines)
                         msgLines = []
-                        messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
+                        messages.append(self._createTextModeSms(msgStatus, number, msgTime, msgText))
                         delMessages.add(int(msgIndex))
                     msgIndex, msgStatus, number, msgTime = cmglMatch.groups()
                     msgLines = []
+                elif cmglReportRegex.match(line):
+                    if msgIndex != None:
+                        messages.append(self._createTextModeSms(msgStatus, number, msgTime, '\n'.join(msgLines)))
+                        delMessages.add(int(msgIndex))
+                    msgIndex, msgStatus, reference, number, sentTime, deliverTime, deliverStatus = cmglReportRegex.match(line).groups()
+                    messages.append(StatusReport(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], int(reference), number, parseTextModeTimeStr(sentTime), parseTextModeTimeStr(deliverTime), int(deliverStatus)))
+                    delMessages.add(int(msgIndex))
+                    msgIndex = None
+                    msgLines = []
                 else:
                     if line != 'OK':
                         msgLines.append(line)
             if msgIndex != None:
                 msgText = '\n'.join(msgLines)
                 msgLines = []
-                messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
+                messages.append(self._createTextModeSms(msgStatus, number, msgTime, msgText))
                 delMessages.add(int(msgIndex))
         else:
             cmglRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*(\d+),.*$')
@@ -866,6 +876,14 @@ class GsmModem(SerialComms):
                     self.deleteStoredSms(msgIndex)
         return messages
 
+    def _createTextModeSms(self, msgStatus, number, msgTime, msgText):
+        """ Creates the object for a message listed in text mode """
+        if msgTime != None:
+            return ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText)
+        sms = Sms(number, msgText)
+        sms.status = Sms.TEXT_MODE_STATUS_MAP[msgStatus]
+        return sms
+
     def _handleModemNotification(self, lines):
         """ Handler for unsolicited notifications from the modem
         
-- 
2.43.0


From 4cce1b9bf6e10a243bb769135d5f8f96824b3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 31/82] fix: wait for the delivery report of the very message

---
 gsmmodem/modem.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index cee946b..ce56c93 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -80,6 +80,7 @@ class SentSms(Sms):
         super(SentSms, self).__init__(number, text, smsc)
         self.report = None # Status report for this SMS (StatusReport object)
         self.reference = reference
+        self._reportEvent = None # threading.Event, if sendSms() is waiting for the status report of this SMS
         
     @property
     def status(self):
@@ -154,7 +155,6 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
-        self._smsStatusReportEvent = None # threading.Event
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
@@ -653,18 +653,17 @@ class GsmModem(SerialComms):
         :raise CommandError: if an error occurs while attempting to send the message
         :raise TimeoutException: if the operation times out
         """
-        sms = self._submitSms(destination, text, sendFlash)
+        sms = self._submitSms(destination, text, sendFlash, threading.Event() if waitForDeliveryReport else None)
         if waitForDeliveryReport:
-            self._smsStatusReportEvent = threading.Event()
-            if self._smsStatusReportEvent.wait(deliveryTimeout):
-                self._smsStatusReportEvent = None
+            if sms._reportEvent.wait(deliveryTimeout):
+                sms._reportEvent = None
             else: # Response timed out
-                self._smsStatusReportEvent = None
+                sms._reportEvent = None
                 raise TimeoutException()
         return sms
 
     @_exclusive
-    def _submitSms(self, destination, text, sendFlash):
+    def _submitSms(self, destination, text, sendFlash, reportEvent=None):
         """ Hands an SMS text message to the modem; no other commands are accepted between its parts """
         if self._smsTextMode:
             self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
@@ -681,6 +680,7 @@ class GsmModem(SerialComms):
         if self._smsRef > 255:
             self._smsRef = 0
         sms = SentSms(destination, text, reference)
+        sms._reportEvent = reportEvent
         # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
         self.sentSms[reference] = sms
         return sms
@@ -1074,11 +1074,13 @@ class GsmModem(SerialComms):
                 report = self.readStoredSms(msgIndex, msgMemory)
                 self.deleteStoredSms(msgIndex)
             # Update sent SMS status if possible            
-            if report.reference in self.sentSms:                
-                self.sentSms[report.reference].report = report
-            if self._smsStatusReportEvent:                
+            sms = self.sentSms.get(report.reference)
+            if sms != None:
+                sms.report = report
+            reportEvent = sms._reportEvent if sms != None else None
+            if reportEvent and not reportEvent.is_set():
                 # A sendSms() call is waiting for this response - notify waiting thread
-                self._smsStatusReportEvent.set()
+                reportEvent.set()
             else:
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
-- 
2.43.0


From c0fc89fdad8c948f24ece464f557cf56506237d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 32/82] fix: USSD notifications without a message

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ce56c93..ee4fc04 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -136,7 +136,7 @@ class GsmModem(SerialComms):
     # Used for parsing SMS message reads (PDU mode)
     CMGR_REGEX_PDU = None
     # Used for parsing USSD event notifications
-    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', re.DOTALL)
+    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d)(?:,"(.*?)",(\d+))?', re.DOTALL) # the message is optional
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
     
-- 
2.43.0


From 56216aefc03fd7820410b49475e34743d10a80e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:37 +0000
Subject: [PATCH 33/82] fix: USSD messages of several lines that contain quotes

---
 gsmmodem/modem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ee4fc04..e5553f7 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -137,6 +137,8 @@ class GsmModem(SerialComms):
     CMGR_REGEX_PDU = None
     # Used for parsing USSD event notifications
     CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d)(?:,"(.*?)",(\d+))?', re.DOTALL) # the message is optional
+    # Used for recognizing the end of a USSD event notification
+    CUSD_END_REGEX = re.compile(r'(",\d+|\+CUSD:\s*\d)\s*$')
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
     
@@ -907,7 +909,7 @@ class GsmModem(SerialComms):
                     count = 2
             elif lines[0].startswith('+CUSD'):
                 # The message may contain line breaks, and may be followed by further +CUSD notifications
-                while count < len(lines) and (''.join(lines[:count]).count('"') % 2 == 1 or lines[count].startswith('+CUSD')):
+                while count < len(lines) and (not self.CUSD_END_REGEX.search('\r\n'.join(lines[:count])) or lines[count].startswith('+CUSD')):
                     count += 1
             notification, lines = lines[:count], lines[count:]
             try:
-- 
2.43.0


From a5819657e1da46d925a5d3a0995af95be25c97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:28 +0000
Subject: [PATCH 34/82] fix: a cancelled USSD session is not active any more

---
 gsmmodem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e5553f7..cb300bf 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1424,3 +1424,4 @@ class Ussd(object):
         """
         if self.sessionActive:
             self._gsmModem.write('AT+CUSD=2')
+            self.sessionActive = False
-- 
2.43.0


From 4f705a47cdf28213905dce360059a00aef40748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:18 +0000
Subject: [PATCH 35/82] fix: race between USSD response and its time limit

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index cb300bf..ee603e6 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1185,11 +1185,12 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
-        if self._ussdSessionEvent:
+        ussdSessionEvent = self._ussdSessionEvent # may be reset by the waiting thread at any time
+        if ussdSessionEvent:
             # A sendUssd() call is waiting for this response - parse it
             self._ussdResponse = self._parseCusdResponse(lines)
             # Notify waiting thread
-            self._ussdSessionEvent.set()
+            ussdSessionEvent.set()
     
     def _parseCusdResponse(self, lines):
         """ Parses one or more +CUSD notification lines (for USSD)
-- 
2.43.0


From 0360583d364821d52055b6299e9e246c413be571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 36/82] fix: find the dialled call among several +CLCC lines

---
 gsmmodem/modem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ee603e6..e629200 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1244,11 +1244,16 @@ class GsmModem(SerialComms):
             time.sleep(0.5)
             if expectedState == 0: # Only call initializing can timeout
                 timeLeft -= 0.5
+            clcc = None
             try:
-                clcc = self._pollCallStatusRegex.match(self.write('AT+CLCC')[0])
+                # Look for the dialled call; there may be others
+                for line in self.write('AT+CLCC'):
+                    match = self._pollCallStatusRegex.match(line)
+                    if match and match.group(2) == '0' and int(match.group(1)) == (callId or int(match.group(1))) and (callId or int(match.group(1)) not in self.activeCalls):
+                        clcc = match
             except TimeoutException as timeout:
                 # Can happend if the call was ended during our time.sleep() call
-                clcc = None
+                pass
             if clcc:
                 direction = int(clcc.group(2))
                 if direction == 0: # Outgoing call
-- 
2.43.0


From 8c108de580b0c77fff2e81c88e5620cc7bd4e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 37/82] fix: accept optional parameters in +CLCC lines

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e629200..58fa689 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -294,7 +294,7 @@ class GsmModem(SerialComms):
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
             self._mustPollCallStatus = True
-            self._pollCallStatusRegex = re.compile('^\+CLCC:\s+(\d+),(\d),(\d),(\d),([^,]),"([^,]*)",(\d+)$')
+            self._pollCallStatusRegex = re.compile('^\+CLCC:\s+(\d+),(\d),(\d),(\d),([^,]),"([^,]*)",(\d+)(?:,.*)?$')
             self._waitForAtdResponse = True # Most modems return OK immediately after issuing ATD
 
         # General meta-information setup
-- 
2.43.0


From 8dc07d9108aaf4f29ff8bc0cde34115623fde541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 38/82] fix: calls answered before the first status poll

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 58fa689..5234111 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1260,12 +1260,12 @@ class GsmModem(SerialComms):
                     # Determine call state
                     stat = int(clcc.group(3))
                     if expectedState == 0: # waiting for call initiated
-                        if stat == 2 or stat == 3: # Dialing or ringing ("alerting")                            
+                        if stat == 2 or stat == 3 or stat == 0: # Dialing or ringing ("alerting"), or answered already
                             callId = int(clcc.group(1))
                             callType = int(clcc.group(4))
                             self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
                             expectedState = 1 # Now wait for call answer
-                    elif expectedState == 1: # waiting for call to be answered
+                    if expectedState == 1: # waiting for call to be answered
                         if stat == 0: # Call active
                             callId = int(clcc.group(1))
                             self._handleCallAnswered(None, callId)
-- 
2.43.0


From 879cad0d2d49e18226399d6da484cc159ec60def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 39/82] fix: update the call before its status callback runs

---
 gsmmodem/modem.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5234111..082a003 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1041,9 +1041,9 @@ class GsmModem(SerialComms):
                             callId = call.id
                             break
         if callId and callId in self.activeCalls:
-            self.activeCalls[callId].answered = False
-            self.activeCalls[callId].active = False
-            del self.activeCalls[callId]
+            call = self.activeCalls.pop(callId)
+            call.active = False
+            call.answered = False # this executes the callback function of the call
 
     def _handleCallRejected(self, regexMatch, callId=None):
         """ Handler for rejected (unanswered calls being ended)
@@ -1354,10 +1354,10 @@ class Call(object):
         """
         if self.active:
             self._gsmModem.write('ATH')
-            self.answered = False
             self.active = False
-        if self.id in self._gsmModem.activeCalls:
-            del self._gsmModem.activeCalls[self.id]
+            self.answered = False
+        if self._gsmModem.activeCalls.get(self.id) is self: # the ID may have been reused if this call has ended already
+            self._gsmModem.activeCalls.pop(self.id, None)
 
 
 class IncomingCall(Call):
-- 
2.43.0


From 1f17480e3eb8b5a91fe10e07efb86148e90c6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 40/82] fix: end of Huawei calls that lasted 10 seconds or more

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 082a003..0df34b4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -264,7 +264,7 @@ class GsmModem(SerialComms):
             self.log.info('Loading Huawei call state update table')
             self._callStatusUpdates = ((re.compile(r'^\^ORIG:(\d),(\d)$'), self._handleCallInitiated),
                                        (re.compile(r'^\^CONN:(\d),(\d)$'), self._handleCallAnswered),
-                                       (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), self._handleCallEnded))
+                                       (re.compile(r'^\^CEND:(\d),(\d+),(\d+),(\d+)$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
-- 
2.43.0


From 155a178632346fcbf603698b369a679dbe447638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 41/82] fix: call updates that directly follow the call
 initiation

---
 gsmmodem/modem.py | 50 +++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0df34b4..5399806 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -159,6 +159,8 @@ class GsmModem(SerialComms):
         self._ussdResponse = None # gsmmodem.modem.Ussd
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
+        self._dialRequest = None # number and callback function of the call being dialled
+        self._dialLock = threading.Lock() # held while a dialled call is being registered
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
         self._waitForCallInitUpdate = True # Flag that controls if we should wait for a ATD "call initiated" message
         self._callStatusUpdates = [] # populated during connect() - contains regexes and handlers for detecting/handling call status updates
@@ -733,34 +735,42 @@ class GsmModem(SerialComms):
         """
         if self._waitForCallInitUpdate:
             # Wait for the "call originated" notification message
+            self._dialRequest = (number, callStatusUpdateCallbackFunc)
+            self._dialResponse = None
             self._dialEvent = threading.Event()
             try:
                 self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
             except Exception:
-                self._dialEvent = None # Cancel the thread sync lock
+                with self._dialLock:
+                    self._dialEvent = None # Cancel the thread sync lock
+                    if self._dialResponse != None:
+                        self.activeCalls.pop(self._dialResponse.id, None)
                 raise
         else:
             # Don't wait for a call init update - base the call ID on the number of active calls
-            self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
-            self.log.debug("Not waiting for outgoing call init update message")
             callId = len(self.activeCalls) + 1
             callType = 0 # Assume voice
             call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
+            self.activeCalls[callId] = call # before dialling: updates may follow immediately
+            try:
+                self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
+            except Exception:
+                del self.activeCalls[callId]
+                raise
+            self.log.debug("Not waiting for outgoing call init update message")
             return call
 
         if self._mustPollCallStatus:
             # Fake a call notification by polling call status until the status indicates that the call is being dialed
             threading.Thread(target=self._pollCallStatus, kwargs={'expectedState': 0, 'timeout': timeout}).start()
 
-        if self._dialEvent.wait(timeout):
+        self._dialEvent.wait(timeout)
+        with self._dialLock:
             self._dialEvent = None
-            callId, callType = self._dialResponse
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
+            call = self._dialResponse
+        if call != None:
             return call
         else: # Call establishing timed out
-            self._dialEvent = None
             raise TimeoutException()
 
     def processStoredSms(self, unreadOnly=False):
@@ -999,25 +1009,31 @@ class GsmModem(SerialComms):
     
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        if self._dialEvent:
+        with self._dialLock:
+            if self._dialEvent == None or self._dialEvent.is_set():
+                return None # no call is being dialled
             if regexMatch:
                 groups = regexMatch.groups()
-                # Set self._dialReponse to (callId, callType)
+                callId = int(groups[0])
                 if len(groups) >= 2:
-                    self._dialResponse = (int(groups[0]) , int(groups[1]))
+                    callType = int(groups[1])
                 else:
-                    self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
-            else:
-                self._dialResponse = callId, callType
+                    callType = 1 # assume call type: VOICE
+            # Register the call here; further updates may follow immediately
+            number, callStatusUpdateCallbackFunc = self._dialRequest
+            self._dialResponse = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
+            self.activeCalls[callId] = self._dialResponse
             self._dialEvent.set()
-                
+            return self._dialResponse
+
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
         if regexMatch:
             groups = regexMatch.groups()
             if len(groups) > 1:
                 callId = int(groups[0])
-                self.activeCalls[callId].answered = True
+                if callId in self.activeCalls:
+                    self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
                 for call in dictValuesIter(self.activeCalls):
-- 
2.43.0


From 0b345f0b547afa45e5eaebf70e87233aa6143a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 42/82] fix: stop polling a call that has been hung up

---
 gsmmodem/modem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5399806..13005dd 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1042,7 +1042,8 @@ class GsmModem(SerialComms):
                         return
         else:
             # Use supplied values
-            self.activeCalls[callId].answered = True
+            if callId in self.activeCalls:
+                self.activeCalls[callId].answered = True
 
     def _handleCallEnded(self, regexMatch, callId=None, filterUnanswered=False):
         if regexMatch:
@@ -1260,6 +1261,8 @@ class GsmModem(SerialComms):
             time.sleep(0.5)
             if expectedState == 0: # Only call initializing can timeout
                 timeLeft -= 0.5
+            elif self.activeCalls.get(callId) is not call:
+                return # The call has been hung up locally
             clcc = None
             try:
                 # Look for the dialled call; there may be others
@@ -1279,7 +1282,9 @@ class GsmModem(SerialComms):
                         if stat == 2 or stat == 3 or stat == 0: # Dialing or ringing ("alerting"), or answered already
                             callId = int(clcc.group(1))
                             callType = int(clcc.group(4))
-                            self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
+                            call = self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
+                            if call == None:
+                                return # dial() has timed out
                             expectedState = 1 # Now wait for call answer
                     if expectedState == 1: # waiting for call to be answered
                         if stat == 0: # Call active
-- 
2.43.0


From 9046455baa3a68cf432be9172a7247a1645ce4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 43/82] fix: unique call ids

---
 gsmmodem/modem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 13005dd..c4b835c 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -748,7 +748,7 @@ class GsmModem(SerialComms):
                 raise
         else:
             # Don't wait for a call init update - base the call ID on the number of active calls
-            callId = len(self.activeCalls) + 1
+            callId = self._freeCallId()
             callType = 0 # Assume voice
             call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
             self.activeCalls[callId] = call # before dialling: updates may follow immediately
@@ -1002,11 +1002,18 @@ class GsmModem(SerialComms):
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-            callId = len(self.activeCalls) + 1;
+            callId = self._freeCallId()
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
         self.incomingCallCallback(call)    
     
+    def _freeCallId(self):
+        """ :return: the lowest call ID that is not in use """
+        callId = 1
+        while callId in self.activeCalls:
+            callId += 1
+        return callId
+
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
         with self._dialLock:
-- 
2.43.0


From 42af0f25de396729bf3603f90322e937bedacd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 44/82] fix: accept incoming calls of other types than VOICE

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c4b835c..54399ae 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1401,7 +1401,7 @@ class IncomingCall(Call):
         :param callType: Type of the incoming call (VOICE, FAX, DATA, etc)
         """
         if type(callType) == str:
-            callType = self.CALL_TYPE_MAP[callType] 
+            callType = self.CALL_TYPE_MAP.get(callType, callType) # other types are kept as announced
         super(IncomingCall, self).__init__(gsmModem, callId, callType, number)        
         # Type attribute of the incoming call
         self.ton = ton
-- 
2.43.0


From 59e0bd0c1f6d3935242515a845790cb8dc82b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 45/82] fix: do not take an outgoing call for a ringing one

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 54399ae..091cd76 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -998,7 +998,7 @@ class GsmModem(SerialComms):
         
         call = None
         for activeCall in dictValuesIter(self.activeCalls):
-            if activeCall.number == callerNumber:
+            if isinstance(activeCall, IncomingCall) and activeCall.number == callerNumber:
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-- 
2.43.0


From dab673c4b37e9d2f36f38c259967c541f2ebf4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 46/82] fix: an incoming call stops ringing when the caller
 hangs up

---
 gsmmodem/modem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 091cd76..301e064 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1067,6 +1067,8 @@ class GsmModem(SerialComms):
         if callId and callId in self.activeCalls:
             call = self.activeCalls.pop(callId)
             call.active = False
+            if isinstance(call, IncomingCall):
+                call.ringing = False
             call.answered = False # this executes the callback function of the call
 
     def _handleCallRejected(self, regexMatch, callId=None):
-- 
2.43.0


From caa3b91e39a9b5badc5a20494cf1ac93d87d4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 47/82] fix: failed hangup of an incoming call

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 301e064..68e2eed 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1425,8 +1425,8 @@ class IncomingCall(Call):
 
     def hangup(self):
         """ End the phone call. """
-        self.ringing = False
         super(IncomingCall, self).hangup()
+        self.ringing = False
 
 class Ussd(object):
     """ Unstructured Supplementary Service Data (USSD) message.
-- 
2.43.0


From 2e319084c3930e1ead3f321a9f14199a69224fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 48/82] fix: handle simultaneous rings

---
 gsmmodem/modem.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 68e2eed..698cd7d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -748,14 +748,15 @@ class GsmModem(SerialComms):
                 raise
         else:
             # Don't wait for a call init update - base the call ID on the number of active calls
-            callId = self._freeCallId()
             callType = 0 # Assume voice
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call # before dialling: updates may follow immediately
+            with self._dialLock:
+                callId = self._freeCallId()
+                call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
+                self.activeCalls[callId] = call # before dialling: updates may follow immediately
             try:
                 self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
             except Exception:
-                del self.activeCalls[callId]
+                self.activeCalls.pop(callId, None)
                 raise
             self.log.debug("Not waiting for outgoing call init update message")
             return call
@@ -997,14 +998,15 @@ class GsmModem(SerialComms):
             callerNumber = ton = callerName = None
         
         call = None
-        for activeCall in dictValuesIter(self.activeCalls):
-            if isinstance(activeCall, IncomingCall) and activeCall.number == callerNumber:
-                call = activeCall
-                call.ringCount += 1
-        if call == None:
-            callId = self._freeCallId()
-            call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
-            self.activeCalls[callId] = call
+        with self._dialLock: # other notifications may be handled at the same time
+            for activeCall in list(self.activeCalls.values()):
+                if isinstance(activeCall, IncomingCall) and activeCall.number == callerNumber:
+                    call = activeCall
+                    call.ringCount += 1
+            if call == None:
+                callId = self._freeCallId()
+                call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
+                self.activeCalls[callId] = call
         self.incomingCallCallback(call)    
     
     def _freeCallId(self):
@@ -1043,7 +1045,7 @@ class GsmModem(SerialComms):
                     self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(self.activeCalls.values()):
                     if call.answered == False and type(call) == Call:
                         call.answered = True
                         return
@@ -1059,7 +1061,7 @@ class GsmModem(SerialComms):
                 callId = int(groups[0])
             else:
                 # Call ID not available for this notification - check for the first outgoing call that is active
-                for call in dictValuesIter(self.activeCalls):
+                for call in list(self.activeCalls.values()):
                     if type(call) == Call:
                         if not filterUnanswered or (filterUnanswered == True and call.answered == False):
                             callId = call.id
-- 
2.43.0


From 716d09c2439dae82fa79e20b7619d8405fea0f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 49/82] fix: DTMF command of each modem

---
 gsmmodem/modem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 698cd7d..d70b38e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -151,6 +151,8 @@ class GsmModem(SerialComms):
         self._callingLineIdentification = False
         # Flag indicating whether incoming call notifications have extended information
         self._extendedIncomingCallIndication = False
+        # Command used by this modem to send DTMF tones
+        self._dtmfCommandBase = '+VTS='
         # Current active calls (ringing and/or answered), key is the unique call ID (not the remote number)
         self.activeCalls = {}
         # Dict containing sent SMS messages (for auto-tracking their delivery status)
@@ -270,6 +272,7 @@ class GsmModem(SerialComms):
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
+            self._dtmfCommandBase = Call.DTMF_COMMAND_BASE
             Call.dtmfSupport = True
         elif callUpdateTableHint == 2:
             # Wavecom modem: +WIND notifications supported
@@ -1359,7 +1362,7 @@ class Call(object):
         :raise InvalidStateException: if the call has not been answered, or is ended while the command is still executing
         """        
         if self.answered:
-            dtmfCommandBase = self.DTMF_COMMAND_BASE.format(cid=self.id)
+            dtmfCommandBase = self._gsmModem._dtmfCommandBase.format(cid=self.id)
             toneLen = len(tones)
             if len(tones) > 1:
                 cmd = ('AT{0}{1};{0}' + ';{0}'.join(tones[1:])).format(dtmfCommandBase, tones[0])                
-- 
2.43.0


From ed4b30c5d87681294481759d43c4a2247830e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 50/82] fix: information queries without an answer

---
 gsmmodem/modem.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index d70b38e..c9e1490 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -482,33 +482,37 @@ class GsmModem(SerialComms):
         else:
             raise CommandError()
 
+    def _firstLine(self, response):
+        """ :return: the first information line of a response, or an empty string if it consists of the final result only """
+        return response[0] if len(response) > 1 else ''
+
     @property
     def manufacturer(self):
         """ :return: The modem's manufacturer's name """
-        return self.write('AT+CGMI')[0]
+        return self._firstLine(self.write('AT+CGMI'))
     
     @property
     def model(self):
         """ :return: The modem's model name """
-        return self.write('AT+CGMM')[0]
+        return self._firstLine(self.write('AT+CGMM'))
     
     @property
     def revision(self):
         """ :return: The modem's software revision, or None if not known/supported """
         try:
-            return self.write('AT+CGMR')[0]
+            return self._firstLine(self.write('AT+CGMR')) or None
         except CommandError:
             return None
     
     @property
     def imei(self):
         """ :return: The modem's serial number (IMEI number) """
-        return self.write('AT+CGSN')[0]
+        return self._firstLine(self.write('AT+CGSN'))
     
     @property
     def imsi(self):
         """ :return: The IMSI (International Mobile Subscriber Identity) of the SIM card. The PIN may need to be entered before reading the IMSI """
-        return self.write('AT+CIMI')[0]
+        return self._firstLine(self.write('AT+CIMI'))
     
     @property
     def networkName(self):
-- 
2.43.0


From 8debcb95030cf6636a203f86c436610e6ba9ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 51/82] fix: registration state with location information

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c9e1490..bb83f0b 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -624,7 +624,7 @@ class GsmModem(SerialComms):
         checkCreg = True
         while block[0]:
             if checkCreg:
-                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
+                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)(?:,.*)?$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
                 if cregResult:
                     status = int(cregResult.group(2))
                     if status in (1, 5):
-- 
2.43.0


From 79e121d518fb4007add2fb82183e4dee48d4abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 52/82] fix: no timer thread is left after waiting for network
 coverage

---
 gsmmodem/modem.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index bb83f0b..753f62d 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -613,16 +613,11 @@ class GsmModem(SerialComms):
         :return: the current signal strength
         :rtype: int
         """
-        block = [True]
-        if timeout != None:
-            # Set up a timeout mechanism
-            def _cancelBlock():                
-                block[0] = False                
-            t = threading.Timer(timeout, _cancelBlock)
-            t.start()
+        now = getattr(time, 'monotonic', time.time) # not available in Python 2
+        deadline = now() + timeout if timeout != None else None
         ss = -1
         checkCreg = True
-        while block[0]:
+        while deadline == None or now() < deadline:
             if checkCreg:
                 cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)(?:,.*)?$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
                 if cregResult:
@@ -646,7 +641,7 @@ class GsmModem(SerialComms):
                     return ss
             time.sleep(1)
         else:
-            # If this is reached, the timer task has triggered
+            # If this is reached, the time limit has been reached
             raise TimeoutException()
         
     def sendSms(self, destination, text, waitForDeliveryReport=False, deliveryTimeout=15, sendFlash=False):
-- 
2.43.0


From 986a681126f0681a2ce1d748aed4e8ef235420b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 53/82] fix: iterating over a trie

---
 tools/gsmtermlib/trie.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 184a2fd..0f34d64 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -182,5 +182,3 @@ class Trie(object):
     def __iter__(self):
         for k in list(self.keys()):
             yield k
-        raise StopIteration
-    
\ No newline at end of file
-- 
2.43.0


From b485f51bcf0f284d35f8960ffaef4328ab74b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 54/82] fix: add a key that is the beginning of another key to
 a trie

---
 tools/gsmtermlib/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 0f34d64..b053eac 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -25,6 +25,8 @@ class Trie(object):
     
         if len(key) == 0:
             # All of the original key's chars have been nibbled away            
+            if self.key: # this was a "leaf" previously - create a new branch for its current value
+                self.slots[self.key[0]] = Trie(self.key[1:], self.value)
             self.value = value
             self.key = ''
             return        
-- 
2.43.0


From 9a330d677e709a6ac4c788e1258bcc7bfba4ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 55/82] fix: common prefix below a key of a trie

---
 tools/gsmtermlib/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index b053eac..05dec5d 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -169,7 +169,7 @@ class Trie(object):
                     return self.slots[c]._longestCommonPrefix('', prefix + c)
                 else:
                     return prefix
-        elif self.key != None:
+        elif self.key: # a "leaf"
             if self.key.startswith(key):
                 return prefix + self.key
             else:
-- 
2.43.0


From 5f2993dc9a1dbd82c3fd9e58d2f13beb9b986721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 56/82] fix: remove empty branches of a trie

---
 tools/gsmtermlib/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 05dec5d..7b436ec 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -75,6 +75,8 @@ class Trie(object):
                     del self.slots[c] # Remove the node
             else:
                 del trie[key[1:]]
+                if trie.key == None and len(trie.slots) == 0:
+                    del self.slots[c] # Nothing is left in this branch
         else:
             raise KeyError(key)
                 
-- 
2.43.0


From e14a6a5c57e1187c67859e033d430faac2243769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:19 +0000
Subject: [PATCH 57/82] fix: complete commands typed in lower case

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 4bc665d..cd4da6f 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -554,7 +554,7 @@ class GsmTerm(RawTerm):
                     self._refreshInputPrompt(len(self.inputBuffer))
                 return
             else:
-                commonPrefix = self.completion.longestCommonPrefix(''.join(self.inputBuffer))
+                commonPrefix = self.completion.longestCommonPrefix(prefix)
                 self.inputBuffer = list(commonPrefix)
                 self.cursorPos = len(self.inputBuffer)
                 if matchLen > 20:
-- 
2.43.0


From 26729db9122a916a7884b66306a63b1d8fa44bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 58/82] fix: completion of an unknown command followed by =

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index cd4da6f..61c1132 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -569,7 +569,7 @@ class GsmTerm(RawTerm):
 
     def __printCommandSyntax(self, command):
         """ Command-completion helper method: print command syntax """
-        commandHelp = self.completion[command]
+        commandHelp = self.completion.get(command)
         if commandHelp != None and len(commandHelp) > 2:
             commandValues = commandHelp[2]
             #commandDefault = commandHelp[3]
-- 
2.43.0


From f81c396675deffc6221dfba044c1192279879c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:00 +0000
Subject: [PATCH 59/82] fix: loading a file that is not text

---
 tools/gsmtermlib/terminal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 61c1132..8359fb2 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -435,7 +435,11 @@ class GsmTerm(RawTerm):
                         sys.stdout.write('\n{0}\n'.format(self._color(self.COLOR_RED, 'File not found: "{0}"'.format(filename))))
                         self._refreshInputPrompt(len(self.inputBuffer))                        
                     else:
-                        atCommands = f.readlines()
+                        try:
+                            atCommands = f.readlines()
+                        except ValueError:
+                            atCommands = []
+                            sys.stdout.write('\n{0}'.format(self._color(self.COLOR_RED, 'Not a text file: "{0}"'.format(filename))))
                         f.close()                    
                         sys.stdout.write('\n')
                         for atCommand in atCommands: 
-- 
2.43.0


From 70a3c07cc65bd46841ef4db333979e1e9f7d325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 60/82] fix: loading a file that loads itself

---
 tools/gsmtermlib/terminal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 8359fb2..bdfdbaf 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -207,6 +207,8 @@ class GsmTerm(RawTerm):
         self._initAtCommandsTrie()
         # Flag that indicates whether the user is typing an SMS message's text
         self._typingSms = False
+        # Files with AT commands that are being loaded
+        self._loading = []
 
     def printStartMessage(self):
 #        self.stdscr.addstr('GSMTerm started. Press CTRL+] to exit.')
@@ -429,6 +431,10 @@ class GsmTerm(RawTerm):
                 load = inputStr.split(' ', 1)                
                 if len(load) == 2:                    
                     filename = load[1].strip()
+                    if os.path.realpath(filename) in self._loading:
+                        sys.stdout.write('\n{0}\n'.format(self._color(self.COLOR_RED, 'File is already being loaded: "{0}"'.format(filename))))
+                        self._refreshInputPrompt(len(self.inputBuffer))
+                        return
                     try:
                         f = open(filename, 'r')
                     except IOError:
@@ -442,6 +448,7 @@ class GsmTerm(RawTerm):
                             sys.stdout.write('\n{0}'.format(self._color(self.COLOR_RED, 'Not a text file: "{0}"'.format(filename))))
                         f.close()                    
                         sys.stdout.write('\n')
+                        self._loading.append(os.path.realpath(filename))
                         for atCommand in atCommands: 
                             atCommand = atCommand.strip()
                             if len(atCommand) > 0 and atCommand[0] != '#':
@@ -449,6 +456,7 @@ class GsmTerm(RawTerm):
                                 self._refreshInputPrompt(len(self.inputBuffer))
                                 self._doConfirmInput()
                                 time.sleep(0.1)
+                        self._loading.pop()
                     return            
             if len(inputStr) > 0:
                 if inputStrLower.startswith('at+cmgs='):
-- 
2.43.0


From 05c09b2e214080040a0bab819492e3b12a53557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 61/82] fix: a refused SMS leaves the terminal's message mode

---
 tools/gsmtermlib/terminal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index bdfdbaf..8660494 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -469,8 +469,13 @@ class GsmTerm(RawTerm):
                     except TimeoutException:
                         self._typingSms = False                        
                     else:
+                        if not response[-1].endswith('> '):
+                            # The modem refused the command
+                            self._typingSms = False
+                            self._handleModemNotification(response)
+                            return
                         sys.stdout.write(self._color(self.COLOR_YELLOW, 'Type your SMS message, and press CTRL+Z to send it or press ESC to cancel.\n'))                        
-                        self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[0])
+                        self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[-1])
                     self._refreshInputPrompt()                        
                     return
                 self.serial.write(inputStr)
-- 
2.43.0


From 8ccf804dd91375d59c172cb4ac23dc7170179a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 62/82] fix: keep line breaks of a typed message

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 8660494..3253541 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -371,7 +371,7 @@ class GsmTerm(RawTerm):
         if self._typingSms:
             # SMS messages are confirmed with CTRL+Z or canceled with ESC
             inputStr = ''.join(self.inputBuffer[:self.cursorPos])
-            self.serial.write(inputStr)
+            self.serial.write(inputStr + self.WRITE_TERM)
             self.inputBuffer = self.inputBuffer[self.cursorPos:]
             self.cursorPos = 0
             sys.stdout.write('\n')
-- 
2.43.0


From a06cb94e8fcb08f41d13d5b19df689f2599dec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 63/82] fix: notifications during message entry

---
 tools/gsmtermlib/terminal.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 3253541..fb3d178 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -229,8 +229,6 @@ class GsmTerm(RawTerm):
     def _handleModemNotification(self, lines):
         # Clear any input prompt
         self._removeInputPrompt()
-        if self._typingSms:
-            self.PROMPT = self._color(self.COLOR_CYAN, lines[0])
         if lines[-1] == 'ERROR':
             print(self._color(self.COLOR_RED, '\n'.join(lines)))
         else:
-- 
2.43.0


From 3d801b03474fa0818750d0b0e5c7267774aac3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 64/82] fix: no completion in a message

---
 tools/gsmtermlib/terminal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index fb3d178..e592e4a 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -547,6 +547,8 @@ class GsmTerm(RawTerm):
 
     def _doCommandCompletion(self):
         """ Command-completion method """        
+        if self._typingSms:
+            return # this is the text of a message
         prefix =  ''.join(self.inputBuffer).strip().upper()
         matches = self.completion.keys(prefix)
         matchLen = len(matches)        
-- 
2.43.0


From ab097599fa196927ef1e0a0be9c9e257b42be93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 65/82] fix: clear a cancelled message from the screen

---
 tools/gsmtermlib/terminal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index e592e4a..7f5987c 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -301,6 +301,8 @@ class GsmTerm(RawTerm):
             self._typingSms = False
             self.inputBuffer = []
             self.cursorPos = 0
+            sys.stdout.write('\n')
+            self._refreshInputPrompt()
 
     def _exit(self):
         """ Shuts down the terminal (and app) """
-- 
2.43.0


From 13dde5eb114b5e95427d12f95ebbb9afb3ce3cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:57 +0000
Subject: [PATCH 66/82] fix: sendsms on Python 3

---
 tools/sendsms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index 31c42bd..e984aee 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -12,6 +12,9 @@ import sys, logging
 from gsmmodem.modem import GsmModem, SentSms
 from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
 
+if sys.version_info[0] >= 3:
+    raw_input = input
+
 def parseArgs():
     """ Argument parser for Python 2.7 and above """
     from argparse import ArgumentParser
-- 
2.43.0


From 3e1f8f3482404f7748d8caecd304ac45e95d836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 67/82] fix: sendsms without network registration

---
 tools/sendsms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index e984aee..10cb658 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -10,7 +10,7 @@ from __future__ import print_function
 import sys, logging
 
 from gsmmodem.modem import GsmModem, SentSms
-from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
+from gsmmodem.exceptions import TimeoutException, InvalidStateException, PinRequiredError, IncorrectPinError
 
 if sys.version_info[0] >= 3:
     raw_input = input
@@ -63,7 +63,7 @@ def main():
     print('Checking for network coverage...')
     try:
         modem.waitForNetworkCoverage(5)
-    except TimeoutException:
+    except (TimeoutException, InvalidStateException):
         print('Network signal strength is not sufficient, please adjust modem position/antenna and try again.')
         modem.close()
         sys.exit(1)
-- 
2.43.0


From 6765654c74abf6f6f1a379b8620dc1027cc8f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:38 +0000
Subject: [PATCH 68/82] fix: Console.getkey keeps keys read together

---
 tools/gsmtermlib/terminal.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 7f5987c..601211b 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -9,7 +9,7 @@ Note: The "Console" object was copied from pySerial's miniterm.py code
 """
 
 from __future__ import print_function
-import os, sys, threading, time
+import os, re, sys, threading, time
 import serial
 
 from gsmmodem.serial_comms import SerialComms
@@ -67,9 +67,11 @@ elif os.name == 'posix':
         DELETE = '{0}{1}{2}{3}'.format(chr(27), chr(91), chr(51), chr(126))
         HOME = '{0}{1}{2}'.format(chr(27), chr(79), chr(72))
         END = '{0}{1}{2}'.format(chr(27), chr(79), chr(70))
+        KEY = re.compile('\x1b\\[[0-9;]*[A-Za-z~]|\x1bO[A-Za-z]|.', re.DOTALL) # a single key, possibly an escape sequence
         
         def __init__(self):
             self.fd = sys.stdin.fileno()
+            self.pending = []
 
         def setup(self):
             self.old = termios.tcgetattr(self.fd)
@@ -84,7 +86,13 @@ elif os.name == 'posix':
 #            tty.setraw(self.fd)            
 
         def getkey(self):
-            c = os.read(self.fd, 4)
+            if not self.pending:
+                # Several keys may be read at once
+                c = os.read(self.fd, 1024)
+                if not isinstance(c, str):
+                    c = c.decode('ascii', 'replace') # Python 3
+                self.pending = self.KEY.findall(c) or ['']
+            c = self.pending.pop(0)
             #print (len(c))
             #for a in c:
             #    print('rx:',ord(a))           
-- 
2.43.0


From 6518af83c744144e224eecbf1be440ab9bfaa6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 69/82] fix: restore the console at the end on Python 3

---
 tools/gsmtermlib/terminal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 601211b..f31cbb2 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -10,7 +10,7 @@ Note: The "Console" object was copied from pySerial's miniterm.py code
 
 from __future__ import print_function
 import os, re, sys, threading, time
-import serial
+import atexit, serial
 
 from gsmmodem.serial_comms import SerialComms
 from .trie import Trie
@@ -107,7 +107,7 @@ elif os.name == 'posix':
         console.cleanup()
 
     console.setup()
-    sys.exitfunc = cleanup_console      # terminal modes have to be restored on exit...
+    atexit.register(cleanup_console)      # terminal modes have to be restored on exit...
 
 else:
     raise NotImplementedError("Sorry no implementation for your platform (%s) available." % sys.platform)
-- 
2.43.0


From ba2b5e3a8184f92b6adcf98f4c8f4e1035b09bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 70/82] fix: connect() discards an incomplete notification of
 an earlier connection

---
 gsmmodem/serial_comms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 987b0aa..e882e93 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -45,6 +45,7 @@ class SerialComms(object):
     def connect(self):
         """ Connects to the device and starts the read thread """                
         self.serial = serial.Serial(port=self.port, baudrate=self.baudrate, timeout=self.timeout)
+        self._notification = [] # whatever has been read before is incomplete
         # Start read thread
         self.alive = True 
         self.rxThread = threading.Thread(target=self._readLoop)
-- 
2.43.0


From 3f6fa3a10fdd066f0dc0560bae1626d6d7faad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 71/82] fix: connect() forgets the features found by an earlier
 connect()

---
 gsmmodem/modem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 753f62d..ac2bddd 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -187,6 +187,11 @@ class GsmModem(SerialComms):
         """
         self.log.info('Connecting to modem on port %s at %dbps', self.port, self.baudrate)        
         super(GsmModem, self).connect()
+        # Forget the features found by an earlier connect()
+        self._smsReadSupported = True
+        self._dtmfCommandBase = '+VTS='
+        self._waitForAtdResponse = True
+        self._waitForCallInitUpdate = True
         # Send some initialization commands to the modem
         try:        
             self.write('ATZ') # reset configuration
-- 
2.43.0


From 4e1ad60e892fda52e6c4ba49cdb2b0293fa9dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:06 +0000
Subject: [PATCH 72/82] fix: decode the alphabet of the message class, message
 waiting and automatic deletion coding groups

---
 gsmmodem/pdu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 6965442..4587986 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -565,6 +565,12 @@ def _decodeDataCoding(octet):
         #compressed = octect & 0x20
         alphabet = (octet & 0x0C) >> 2
         return alphabet # 0x00 == GSM-7, 0x01 == 8-bit data, 0x02 == UCS2
+    elif octet & 0xC0 == 0x40: # the same, for a message marked for automatic deletion
+        return (octet & 0x0C) >> 2
+    elif octet & 0xF0 == 0xE0: # message waiting indication
+        return 0x02
+    elif octet & 0xF0 == 0xF0: # data coding/message class
+        return (octet & 0x04) >> 2
     # We ignore other coding groups
     return 0    
 
-- 
2.43.0


From 4f07994ac42f65d2c821ae6d5eb903f0e605759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:24 +0000
Subject: [PATCH 73/82] fix: decode submit PDUs with a validity period in
 enhanced format

---
 gsmmodem/pdu.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 4587986..178bae9 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -429,6 +429,10 @@ def _decodeSmsPdu(pdu):
             result['validity'] = _decodeRelativeValidityPeriod(next(pduIter))
         elif validityPeriodFormat == 0x03: # TP-VP field present and semi-octet represented (absolute)            
             result['validity'] = _decodeTimestamp(pduIter)
+        elif validityPeriodFormat == 0x01: # TP-VP field present in enhanced format
+            validity = _decodeEnhancedValidityPeriod([next(pduIter) for i in xrange(7)])
+            if validity != None:
+                result['validity'] = validity
         userDataLen = next(pduIter)
         udhPresent = (tpduFirstOctet & 0x40) != 0
         ud = _decodeUserData(pduIter, userDataLen, dataCoding, udhPresent)
@@ -503,6 +507,24 @@ def _decodeRelativeValidityPeriod(tpVp):
     else:
         raise ValueError('tpVp must be in range [0, 255]')
 
+def _decodeEnhancedValidityPeriod(octets):
+    """ Decodes the 7 octets of a validity period in enhanced format (see section 9.2.3.12.3 of GSM 03.40)
+    :return: The validity period, or None if none is specified
+    :rtype: datetime.timedelta
+    """
+    if octets[0] & 0x80: # extended functionality indicator
+        return None
+    periodFormat = octets[0] & 0x07
+    if periodFormat == 0x01: # relative
+        return _decodeRelativeValidityPeriod(octets[1])
+    elif periodFormat == 0x02: # seconds
+        return timedelta(seconds=octets[1])
+    elif periodFormat == 0x03: # hours, minutes and seconds in semi-octet representation
+        period = decodeSemiOctets(bytearray(octets[1:4]))
+        return timedelta(hours=int(period[:2]), minutes=int(period[2:4]), seconds=int(period[4:6]))
+    else:
+        return None
+
 def _encodeRelativeValidityPeriod(validityPeriod):
     """ Encodes the specified relative validity period timedelta into an integer for use in an SMS PDU
     (based on the table in section 9.2.3.12 of GSM 03.40)
-- 
2.43.0


From 361f4121f805505cb713286905c5827f9b4530dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:33 +0000
Subject: [PATCH 74/82] fix: read text mode messages whose phonebook name
 contains a comma

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ac2bddd..ad09708 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -576,7 +576,7 @@ class GsmModem(SerialComms):
         """ Compiles regular expression used for parsing SMS messages based on current mode """
         if self._smsTextMode:
             if self.CMGR_SM_DELIVER_REGEX_TEXT == None:
-                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
                 self.CMGR_SM_REPORT_REGEXT_TEXT = re.compile(r'^\+CMGR: ([^,]*),\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
         elif self.CMGR_REGEX_PDU == None:
             self.CMGR_REGEX_PDU = re.compile(r'^\+CMGR: (\d*),"{0,1}([^"]*)"{0,1},(\d+)$')
@@ -821,7 +821,7 @@ class GsmModem(SerialComms):
         messages = []
         delMessages = set()
         if self._smsTextMode:
-            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,(?:"([^"]+)")?$') # messages stored for sending have no time
+            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",(?:"[^"]*"|[^,]*),(?:"([^"]+)")?$') # messages stored for sending have no time
             cmglReportRegex = re.compile(r'^\+CMGL: (\d+),"([^"]+)",\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
-- 
2.43.0


From 70b1fd11474b3250991a27ef914515862b6d5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:20 +0000
Subject: [PATCH 75/82] fix: decode PDUs with an empty address

---
 gsmmodem/pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 178bae9..a4772c5 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -631,8 +631,11 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
             if ton == 0x10: # International number
                 addressValue = '+' + addressValue
             return (addressValue, (addressLen + 1))
-    else:
+    elif smscField:
         return (None, 1)
+    else:
+        next(byteIter) # the type-of-address octet is there even if the address is empty
+        return (None, 2)
 
 def _encodeAddressField(address, smscField=False):
     """ Encodes the address into an address field
-- 
2.43.0


From ac09e1274c7ee7b72c8b4ebd8ada8919e5cd96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:10 +0000
Subject: [PATCH 76/82] fix: read text mode messages without a number

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ad09708..5cd7fe6 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -576,7 +576,7 @@ class GsmModem(SerialComms):
         """ Compiles regular expression used for parsing SMS messages based on current mode """
         if self._smsTextMode:
             if self.CMGR_SM_DELIVER_REGEX_TEXT == None:
-                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
+                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]*)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
                 self.CMGR_SM_REPORT_REGEXT_TEXT = re.compile(r'^\+CMGR: ([^,]*),\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
         elif self.CMGR_REGEX_PDU == None:
             self.CMGR_REGEX_PDU = re.compile(r'^\+CMGR: (\d*),"{0,1}([^"]*)"{0,1},(\d+)$')
@@ -821,7 +821,7 @@ class GsmModem(SerialComms):
         messages = []
         delMessages = set()
         if self._smsTextMode:
-            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",(?:"[^"]*"|[^,]*),(?:"([^"]+)")?$') # messages stored for sending have no time
+            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]*)",(?:"[^"]*"|[^,]*),(?:"([^"]+)")?$') # messages stored for sending have no time
             cmglReportRegex = re.compile(r'^\+CMGL: (\d+),"([^"]+)",\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
-- 
2.43.0


From b50a15a74f4c3af49c6c3f594f7379ed5808350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:45 +0000
Subject: [PATCH 77/82] fix: outgoing calls of Wavecom modems have the call
 type VOICE

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5cd7fe6..b39519e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1034,7 +1034,7 @@ class GsmModem(SerialComms):
                 if len(groups) >= 2:
                     callType = int(groups[1])
                 else:
-                    callType = 1 # assume call type: VOICE
+                    callType = 0 # assume call type: VOICE
             # Register the call here; further updates may follow immediately
             number, callStatusUpdateCallbackFunc = self._dialRequest
             self._dialResponse = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-- 
2.43.0


From 89513780d7a489f1f231885eecdf151748983b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:41 +0000
Subject: [PATCH 78/82] fix: serial ports that exchange bytes (pyserial on
 Python 3) are supported

---
 gsmmodem/serial_comms.py     | 14 ++++++++++++--
 tools/gsmtermlib/terminal.py | 19 +++++++++++--------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index e882e93..ebaf4b2 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -96,6 +96,8 @@ class SerialComms(object):
             rxBuffer = []
             while self.alive:
                 data = self.serial.read(1)
+                if not isinstance(data, str):
+                    data = data.decode('latin-1') # Python 3: pyserial returns bytes
                 if data != '': # check for timeout
                     #print >> sys.stderr, ' RX:', data,'({0})'.format(ord(data))
                     rxBuffer.append(data)
@@ -125,6 +127,14 @@ class SerialComms(object):
             # Notify the fatal error handler
             self.fatalErrorCallback(e)
         
+    def _writePort(self, data):
+        """ Writes text to the serial port """
+        try:
+            self.serial.write(data)
+        except TypeError:
+            # Python 3: pyserial only accepts bytes
+            self.serial.write(data.encode('latin-1'))
+
     def write(self, data, waitForResponse=True, timeout=5, expectedResponseTermSeq=None):
         with self._txLock:            
             if waitForResponse:
@@ -133,7 +143,7 @@ class SerialComms(object):
                 self._response = []
                 self._responseEvent = threading.Event()                
                 try:
-                    self.serial.write(data)
+                    self._writePort(data)
                 except Exception:
                     # Nothing was sent; do not wait for a response
                     self._responseEvent = None
@@ -152,4 +162,4 @@ class SerialComms(object):
                     else:
                         raise TimeoutException()
             else:                
-                self.serial.write(data)
+                self._writePort(data)
diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index f31cbb2..622e98c 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -160,14 +160,17 @@ class RawTerm(SerialComms):
                     self.stop()
                 elif c == '\n':
                     # Convert newline input into \r
-                    self.serial.write(self.WRITE_TERM)
+                    self._writePort(self.WRITE_TERM)
                     if self.echo:
                         # Locally just echo the real newline
                         sys.stdout.write(c)
                         sys.stdout.flush()
                 else:
                     #print('writing: ', c)
-                    self.serial.write(c)
+                    try:
+                        self._writePort(c)
+                    except UnicodeError:
+                        continue # not a character that can be sent
                     if self.echo:
                         sys.stdout.write(c)
                         sys.stdout.flush()
@@ -294,8 +297,8 @@ class GsmTerm(RawTerm):
     def _handleCtrlZ(self):
         """ Handler for CTRL+Z keypresses """
         if self._typingSms:
-            self.serial.write(''.join(self.inputBuffer))
-            self.serial.write(self.CTRL_Z_CHARACTER)
+            self._writePort(''.join(self.inputBuffer))
+            self._writePort(self.CTRL_Z_CHARACTER)
             self._typingSms = False
             self.inputBuffer = []
             self.cursorPos = 0
@@ -305,7 +308,7 @@ class GsmTerm(RawTerm):
     def _handleEsc(self):
         """ Handler for CTRL+Z keypresses """
         if self._typingSms:
-            self.serial.write(self.ESC_CHARACTER)
+            self._writePort(self.ESC_CHARACTER)
             self._typingSms = False
             self.inputBuffer = []
             self.cursorPos = 0
@@ -379,7 +382,7 @@ class GsmTerm(RawTerm):
         if self._typingSms:
             # SMS messages are confirmed with CTRL+Z or canceled with ESC
             inputStr = ''.join(self.inputBuffer[:self.cursorPos])
-            self.serial.write(inputStr + self.WRITE_TERM)
+            self._writePort(inputStr + self.WRITE_TERM)
             self.inputBuffer = self.inputBuffer[self.cursorPos:]
             self.cursorPos = 0
             sys.stdout.write('\n')
@@ -486,8 +489,8 @@ class GsmTerm(RawTerm):
                         self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[-1])
                     self._refreshInputPrompt()                        
                     return
-                self.serial.write(inputStr)
-                self.serial.write(self.WRITE_TERM)
+                self._writePort(inputStr)
+                self._writePort(self.WRITE_TERM)
         # Locally just echo the real newline
         sys.stdout.write('\n')
         sys.stdout.flush()
-- 
2.43.0


From 73db24397e99587101b3aab616f04be317399a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 79/82] fix: each call tells whether its own modem supports
 DTMF tones

---
 gsmmodem/modem.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b39519e..ca1c39a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -153,6 +153,7 @@ class GsmModem(SerialComms):
         self._extendedIncomingCallIndication = False
         # Command used by this modem to send DTMF tones
         self._dtmfCommandBase = '+VTS='
+        self._dtmfSupport = False
         # Current active calls (ringing and/or answered), key is the unique call ID (not the remote number)
         self.activeCalls = {}
         # Dict containing sent SMS messages (for auto-tracking their delivery status)
@@ -190,6 +191,7 @@ class GsmModem(SerialComms):
         # Forget the features found by an earlier connect()
         self._smsReadSupported = True
         self._dtmfCommandBase = '+VTS='
+        self._dtmfSupport = False
         self._waitForAtdResponse = True
         self._waitForCallInitUpdate = True
         # Send some initialization commands to the modem
@@ -227,7 +229,7 @@ class GsmModem(SerialComms):
             if '^CVOICE' in commands:
                 self.write('AT^CVOICE=0', parseError=False) # Enable voice calls
             if '+VTS' in commands: # Check for DTMF sending support
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
             elif '^DTMF' in commands:
                 # Huawei modems use ^DTMF to send DTMF tones
                 callUpdateTableHint = 1 # Huawei
@@ -278,7 +280,7 @@ class GsmModem(SerialComms):
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
             self._dtmfCommandBase = Call.DTMF_COMMAND_BASE
-            Call.dtmfSupport = True
+            self._dtmfSupport = Call.dtmfSupport = True
         elif callUpdateTableHint == 2:
             # Wavecom modem: +WIND notifications supported
             self.log.info('Loading Wavecom call state update table')
@@ -288,7 +290,7 @@ class GsmModem(SerialComms):
             self._waitForAtdResponse = False # Wavecom modems return OK only when the call is answered
             self._mustPollCallStatus = False
             if commands == None: # older modem, assume it has standard DTMF support
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
         elif callUpdateTableHint == 3: # ZTE
             # Use ZTE notifications ("CONNECT"/"HANGUP", but no "call initiated" notification)
             self.log.info('Loading ZTE call state update table')
@@ -299,7 +301,7 @@ class GsmModem(SerialComms):
             self._mustPollCallStatus = False
             self._waitForCallInitUpdate = False # ZTE modems do not provide "call initiated" updates
             if commands == None: # ZTE uses standard +VTS for DTMF
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
         else:
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
@@ -1333,6 +1335,7 @@ class Call(object):
         :param number: The number that is being called        
         """
         self._gsmModem = weakref.proxy(gsmModem)
+        self.dtmfSupport = gsmModem._dtmfSupport
         self._callStatusUpdateCallbackFunc = callStatusUpdateCallbackFunc
         # Unique ID of this call
         self.id = callId
-- 
2.43.0


From 711abb341d420b99855cadf516ff4de5d0e5ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:04 +0000
Subject: [PATCH 80/82] fix: a failing call status callback does not stop the
 polling of the call

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ca1c39a..b681a19 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1309,7 +1309,11 @@ class GsmModem(SerialComms):
                     if expectedState == 1: # waiting for call to be answered
                         if stat == 0: # Call active
                             callId = int(clcc.group(1))
-                            self._handleCallAnswered(None, callId)
+                            try:
+                                self._handleCallAnswered(None, callId)
+                            except Exception:
+                                # The user's callback failed; the end of the call must still be noticed
+                                self.log.exception('Call status callback failed')
                             expectedState = 2 # Now wait for call hangup                            
             elif expectedState == 2 : # waiting for remote hangup
                 # Since there was no +CLCC response, the call is no longer active
-- 
2.43.0


From 8e25b9e7b680a6cd90d0d62c7aca1de90be665c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:54 +0000
Subject: [PATCH 81/82] fix: a call hung up is removed even if its status
 callback fails

---
 gsmmodem/modem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b681a19..23b6318 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1398,12 +1398,14 @@ class Call(object):
         
         Does nothing if the call is already inactive.
         """
-        if self.active:
+        hungUp = self.active
+        if hungUp:
             self._gsmModem.write('ATH')
             self.active = False
-            self.answered = False
         if self._gsmModem.activeCalls.get(self.id) is self: # the ID may have been reused if this call has ended already
             self._gsmModem.activeCalls.pop(self.id, None)
+        if hungUp:
+            self.answered = False # this executes the callback function of the call, which may fail
 
 
 class IncomingCall(Call):
-- 
2.43.0


From 32a4fa1688a37b727521de2d3c5d5821c405a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:44 +0000
Subject: [PATCH 82/82] fix: processStoredSms() loses no message if the
 callback fails for one

---
 gsmmodem/modem.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 23b6318..a87a17f 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -798,10 +798,17 @@ class GsmModem(SerialComms):
         states = [Sms.STATUS_RECEIVED_UNREAD]
         if not unreadOnly:
             states.insert(0, Sms.STATUS_RECEIVED_READ)
+        failure = None
         for msgStatus in states:
             messages = self.listStoredSms(status=msgStatus, delete=True)
             for sms in messages:
-                self.smsReceivedCallback(sms)
+                try:
+                    self.smsReceivedCallback(sms)
+                except Exception as e:
+                    # The other messages have been removed from the SIM card already; do not lose them
+                    failure = failure or e
+        if failure:
+            raise failure
 
     @_exclusive
     def listStoredSms(self, status=Sms.STATUS_ALL, memory=None, delete=False):
-- 
2.43.0

