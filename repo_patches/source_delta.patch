From 968c350f8320ea4c845b26ee86c169dc77d8fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 01/59] fix: a packet that cannot be opened was reported as
 tossed and then deleted

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..feaf41c 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -127,7 +127,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
-      return(TRUE);
+      return(FALSE);
    }
 
    if(osRead(fh,PktHeader,SIZE_PKTHEADER)!=SIZE_PKTHEADER)
-- 
2.43.0


From 5a0b4410800a5bd9c1477be641ead62525618be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 02/59] fix: interrupting the toss inside a packet turned the
 good packet into a bad one

---
 src/crashmail/pkt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index feaf41c..a7f73af 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -499,6 +499,13 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       }
    }
 
+   if(ctrlc)
+   {
+      osClose(fh);
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)
    {
       osClose(fh);
-- 
2.43.0


From 5b0cc33d672428786602b150ea2a60a14495262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 03/59] fix: bad packets and bundles were deleted when they
 could not be renamed to .bad

---
 src/crashmail/misc.c |  6 ++++--
 src/crashmail/misc.h |  2 +-
 src/crashmail/pkt.c  | 30 ++++++++++--------------------
 src/crashmail/toss.c |  7 ++++---
 4 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..b1330f6 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -279,7 +279,7 @@ void stripleadtrail(char *str)
 	striptrail(str);
 }	
 
-void BadFile(char *filename,char *comment)
+bool BadFile(char *filename,char *comment)
 {
    char destname[100],numbuf[10];
    uint32_t num;
@@ -308,10 +308,12 @@ void BadFile(char *filename,char *comment)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to move %s to %s",filename,destname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    osSetComment(destname,comment);
+
+   return(TRUE);
 }
 
 bool MatchFlags(char group,char *node)
diff --git a/src/crashmail/misc.h b/src/crashmail/misc.h
index 28fc611..3c392f9 100644
--- a/src/crashmail/misc.h
+++ b/src/crashmail/misc.h
@@ -1,7 +1,7 @@
 void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *archive,char *file);
 
 bool SortFEList(struct jbList *list);
-void BadFile(char *filename,char *comment);
+bool BadFile(char *filename,char *comment);
 
 bool IsArc(char *file);
 bool IsPkt(char *file);
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index a7f73af..5ed2ecf 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -135,8 +135,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,TOSSINGERR,"Packet header in %s is too short",pkt);
       osClose(fh);
       mmFree(mm);
-      BadFile(pkt,"Packet header is too short");
-      return(TRUE);
+      return(BadFile(pkt,"Packet header is too short"));
    }
 
    if(getuword(PktHeader,PKTHEADER_PKTTYPE)!=0x0002)
@@ -144,8 +143,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,TOSSINGERR,"%s is not a Type-2 packet",pkt);
       osClose(fh);
       mmFree(mm);
-      BadFile(pkt,"Not a Type-2 packet");
-      return(TRUE);
+      return(BadFile(pkt,"Not a Type-2 packet"));
    }
 
    if(getuword(PktHeader,PKTHEADER_BAUD) == 2)
@@ -216,8 +214,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          osClose(fh);
          mmFree(mm);
          sprintf(buf,"Addressed to %u:%u/%u.%u, not to me",PktDest.Zone,PktDest.Net,PktDest.Node,PktDest.Point);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return(BadFile(pkt,buf));
       }
    }
 
@@ -313,8 +310,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       osClose(fh);
       mmFree(mm);
       sprintf(buf,"Message header for msg #1 (offset %d) is too short",msgoffset);
-      BadFile(pkt,buf);
-      return(TRUE);
+      return(BadFile(pkt,buf));
    }
 
    msgnum=0;
@@ -363,8 +359,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          sprintf(buf,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
          osClose(fh);
          mmFree(mm);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return(BadFile(pkt,buf));
       }
 
       if(longread)
@@ -373,8 +368,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          sprintf(buf,"Header strings too long in msg #%u (offset %d)",msgnum,msgoffset);
          osClose(fh);
          mmFree(mm);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return(BadFile(pkt,buf));
       }
 
       /* Start reading message text */
@@ -411,8 +405,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 			 LogWrite(1,TOSSINGERR,"Wrong password");
 			 osClose(fh);
 			 mmFree(mm);
-			 BadFile(pkt,"Wrong password");
-			 return(TRUE);
+			 return(BadFile(pkt,"Wrong password"));
 		  }
 		}
 
@@ -428,8 +421,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
             mmFree(mm);
             LogWrite(1,TOSSINGERR,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
             sprintf(buf,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
-            BadFile(pkt,buf);
-            return(TRUE);
+            return(BadFile(pkt,buf));
          }
 
          if(buf[0])
@@ -490,8 +482,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 		     osClose(fh);
 		     mmFree(mm);
 		     sprintf(buf,"Packet header too short for msg #%u (offset %d)",msgnum+1,msgoffset);
-		     BadFile(pkt,buf);
-		     return(TRUE);
+		     return(BadFile(pkt,buf));
 		}
 		else
 			// some tossers might produce one zero instead two
@@ -512,8 +503,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mmFree(mm);
       LogWrite(1,TOSSINGERR,"Unknown message type %u for message #%u (offset %d)",getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE),msgnum+1,msgoffset);
       sprintf(buf,"Unknown message type %u for message #%u (offset %d)",getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE),msgnum+1,msgoffset);
-      BadFile(pkt,buf);
-      return(TRUE);
+      return(BadFile(pkt,buf));
    }
 
    printf("                      \x0d");
diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 7eafcbc..389a024 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -96,8 +96,7 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    if(!(tmppacker=(struct Packer *)DetectPacker(file)))
    {
       LogWrite(1,TOSSINGINFO,"Failed to recognize archive type of %s",file);
-      BadFile(file,"Unknown packer");
-      return(TRUE);
+      return(BadFile(file,"Unknown packer"));
    }
 
    printf("\n");
@@ -119,7 +118,9 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    {
       LogWrite(1,SYSTEMERR,"Unarchiving failed: %u",arcres);
       sprintf(buf2,"Unarchiving with %s failed: %u",tmppacker->Name,arcres);
-      BadFile(file,buf2);
+
+      if(!BadFile(file,buf2))
+         return(FALSE);
    }
 
    if(!osReadDir(config.cfg_TempDir,&FEList,IsPkt))
-- 
2.43.0


From 0ab7a4a62940aebc20023833b46ac58335df5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 04/59] fix: inbound files were deleted although their mail
 could not be written or filed in the outbound

---
 src/crashmail/crashmail.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..de87a1a 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,10 +152,15 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
+   if(ioerror)
+      success=FALSE;
+
    if(success)
    {
-      ArchiveOutbound();
-      ProcessSafeDelete();
+      if(ArchiveOutbound())
+         ProcessSafeDelete();
+      else
+         success=FALSE;
    }
 
    for(i=0;AvailMessagebases[i].name;i++)
-- 
2.43.0


From 73eef6b3ba9478efacc2ddea0f7a083a7eec1775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:16 +0000
Subject: [PATCH 05/59] fix: osFPrintf() and osVFPrintf() reported failed
 writes as successful

---
 src/oslib_linux/osfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..36591d1 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -111,7 +111,7 @@ bool osFPrintf(osFile os,char *fmt,...)
    res=vfprintf(os,fmt,args);
    va_end(args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
@@ -123,7 +123,7 @@ bool osVFPrintf(osFile os,char *fmt,va_list args)
 	
    res=vfprintf(os,fmt,args);
 	
-	if(!res)
+	if(res < 0)
 		return(FALSE);
 		
 	return(TRUE);
-- 
2.43.0


From 836694b8c8eaadd29c0f204711425b47f32da28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:50 +0000
Subject: [PATCH 06/59] fix: write errors that only show up when a file is
 closed were ignored

---
 src/crashmail/mb_msg.c   |  6 ++++--
 src/crashmail/misc.c     | 10 +++++++---
 src/crashmail/pkt.c      |  4 +++-
 src/oslib/osfile.h       |  2 +-
 src/oslib_linux/osfile.c |  7 +++++--
 src/oslib_win32/osfile.c |  7 +++++--
 6 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 25e99cf..6f4e755 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -448,7 +448,8 @@ bool msg_WriteHighWater(struct msg_Area *area)
    if(!osWrite(fh,"",1))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
@@ -559,7 +560,8 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index b1330f6..e571c5c 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -391,7 +391,9 @@ bool copyfile(char *file,char *newfile)
 
    free(copybuf);
 
-   osClose(ofh);
+   if(!osClose(ofh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
    osClose(ifh);
 
    if(ioerror)
@@ -816,7 +818,8 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
       }
    }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
@@ -930,7 +933,8 @@ bool WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 5ed2ecf..2103856 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -656,7 +656,9 @@ void FinishPacket(struct Pkt *pkt)
 {
    pktWrite(pkt,(uint8_t *)"",1);
    pktWrite(pkt,(uint8_t *)"",1);
-   osClose(pkt->fh);
+
+   if(!osClose(pkt->fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(pkt->hexnum)
    {
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 8b55d20..9658551 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -15,7 +15,7 @@ typedef void *osFile;
 #define OFFSET_END	 1 
 
 osFile osOpen(char *name,uint32_t mode);
-void osClose(osFile os);
+bool osClose(osFile os);
 int osGetChar(osFile os);
 uint32_t osRead(osFile os,void *buf,uint32_t bytes);
 uint32_t osFGets(osFile os,char *str,uint32_t max);
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 36591d1..1f7f5b1 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -29,9 +29,12 @@ osFile osOpen(char *name,uint32_t mode)
    return (osFile) fh;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
-    fclose((FILE *)os);
+   if(fclose((FILE *)os)==EOF)
+		return(FALSE);
+
+	return(TRUE);
 }
 
 int osGetChar(osFile os)
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 528865b..f3ecca8 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -142,16 +142,19 @@ osFile osOpen(char *name,ulong mode)
    return (osFile)os;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
    struct osfile *osf=(struct osfile *)os;
+   bool res=TRUE;
 
    if(osf->lastaccessmode == LASTACCESS_WRITE)
-      win32writebuffer(osf);
+      res=win32writebuffer(osf);
 
    CloseHandle(osf->h);
    osFree(osf->buf);
    osFree(osf);
+
+   return(res);
 }
 
 ulong osRead(osFile os,void *buf,ulong bytes)
-- 
2.43.0


From c102fddafcf640cdfe8ee52c7de84ddcb7310a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:50 +0000
Subject: [PATCH 07/59] fix: outgoing netmail packets were deleted after a
 failed write to the outbound

---
 src/crashmail/outbound.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..e98ec98 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -608,6 +608,7 @@ bool PackFile(char *file)
    struct Node4D n4d;
    char type;
 	char letter;
+	bool writeerror;
 	osFile ifh,ofh;
 
    /* Parse filename */
@@ -834,24 +835,32 @@ bool PackFile(char *file)
 			}
 		}
 
+		writeerror=FALSE;
+
 		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
 		{
 			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
+				{ ioerror=TRUE; ioerrornum=osError(); writeerror=TRUE; }
 		}
 				
 		osClose(ifh);
-		osClose(ofh);
+
+		if(!osClose(ofh))
+			{ ioerror=TRUE; ioerrornum=osError(); writeerror=TRUE; }
+
 		osFree(copybuf);
 
+		if(writeerror)
+		{
+			UnlockBasename(basename);
+			return(FALSE);
+		}
+
 		osDelete(file);
    }
 
 	UnlockBasename(basename);
 	
-	if(ioerror)
-		return(FALSE);
-	
 	return(TRUE);
 }
 
-- 
2.43.0


From 328a2b47008857a24c382dec8c4fd2cf86bad144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:50 +0000
Subject: [PATCH 08/59] fix: failed writes to flow files were ignored and no
 .orphan file was made

---
 src/crashmail/outbound.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index e98ec98..f5fcab3 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -479,6 +479,7 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 {
    char buf[200],letter,*prefix;
    osFile fh;
+   bool res;
 
    switch(type)
    {
@@ -530,12 +531,13 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(mode == FLOW_DELETE)
       prefix="^";
 
-   if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
-   else                         osFPrintf(fh,"%s%s\n",prefix,filename);
+   if(config.cfg_Flags & CFG_FLOWCRLF) res=osFPrintf(fh,"%s%s\r\n",prefix,filename);
+   else                         res=osFPrintf(fh,"%s%s\n",prefix,filename);
 
-   osClose(fh);
+   if(!osClose(fh))
+      res=FALSE;
 
-   return(TRUE);
+   return(res);
 }
 
 /* Handles locking and MakeOrphan() */
-- 
2.43.0


From 73cba4d2df0146113588373a1741119e16bb7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:50 +0000
Subject: [PATCH 09/59] fix: the packer was run although the packet could not
 be renamed

---
 src/crashmail/outbound.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index f5fcab3..b5aec2f 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -697,7 +697,12 @@ bool PackFile(char *file)
 				cnode->Node.Point,
 				cnode->Packer->Name);
 
-         osRename(file,pktname);
+         if(!osRename(file,pktname))
+         {
+            LogWrite(1,SYSTEMERR,"Failed to rename \"%s\" to \"%s\"",file,pktname);
+				UnlockBasename(basename);
+				return(FALSE);
+         }
 
          if(config.cfg_BeforePack[0])
          {
-- 
2.43.0


From 4ffc1181880085c81f105684bc0a27a5b1700e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:50 +0000
Subject: [PATCH 10/59] fix: crash when an old echomail packet belongs to a
 node that is no longer configured

---
 src/crashmail/outbound.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index b5aec2f..81afaf3 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -742,16 +742,20 @@ bool PackFile(char *file)
       {
          /* Send unpacked echomail */
 
+         char pri;
+
+         pri=cnode ? cnode->EchomailPri : PKTS_NORMAL;
+
          MakeFullPath(config.cfg_PacketDir,GetFilePart(file),pktname,200);
          GetFilePart(pktname)[8]=0;
          strcat(pktname,".pkt");
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
 
          if(!movefile(file,pktname))
          {
@@ -761,8 +765,8 @@ bool PackFile(char *file)
          }
          else
          {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+            if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
+               MakeOrphan(pktname,&n4d,pri,FLOW_DELETE);
          }
       }
    }
-- 
2.43.0


From 1b0433ca1d20d7bfc8709ac464630d114a5ad8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 11/59] fix: nodes were skipped in IGNORESEENBY areas because
 of the previous message's seen-by lines

---
 src/crashmail/handle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..16157ce 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -617,12 +617,13 @@ bool HandleEchomail(struct MemMessage *mm)
 
    /* Check if a node already is in seen-by */
 
+   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
+      temptnode->ConfigNode->IsInSeenBy=FALSE;
+
    if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
    {
       for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
       {
-         temptnode->ConfigNode->IsInSeenBy=FALSE;
-
          if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
             if(temptnode->ConfigNode->Node.Point==0)
                if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
-- 
2.43.0


From 176fe5cb4d7f554ee5576b46821487f7c9bcb58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 12/59] fix: receipts were not marked as generated by CrashMail

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 16157ce..cd3f674 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1013,7 +1013,7 @@ bool AnswerReceipt(struct MemMessage *mm)
 
    MakeFidoDate(time(NULL),tmpmm->DateTime);
 
-   mm->Flags |= MMFLAG_AUTOGEN;
+   tmpmm->Flags |= MMFLAG_AUTOGEN;
 
    MakeNetmailKludges(tmpmm);
 
-- 
2.43.0


From dadc3587f7cb5401ec71de00b6bbaa005ebdb167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 13/59] fix: a message was deleted from the inbound although
 the filter could not copy it

---
 src/crashmail/filter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 91b49cb..2e39be3 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -1018,7 +1018,9 @@ bool Filter(struct MemMessage *mm)
 						break;
 
 					case COMMAND_COPY:
-						Filter_Copy(mm,command->string);
+						if(!Filter_Copy(mm,command->string))
+							return(FALSE);
+
 						break;
 
                case COMMAND_EXECUTE:
-- 
2.43.0


From cb3840ee61ab1a8be591c7d90813d3cdf35deedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:22 +0000
Subject: [PATCH 14/59] fix: read outside the CRC table for MSGIDs with 8-bit
 characters

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..ff3ec65 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ (unsigned char)str[c]];
 
    return(crc);
 }
-- 
2.43.0


From aede7fca772148593119d491be3e7abade754c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:11 +0000
Subject: [PATCH 15/59] fix: the dupe file was replaced by an incomplete copy
 when writing it failed

---
 src/crashmail/dupe.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index ff3ec65..0302902 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -76,7 +76,7 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+bool copydupe(uint32_t c,osFile oldfh,osFile newfh)
 {
    char buf[300];
    uint16_t size;
@@ -84,17 +84,17 @@ void copydupe(uint16_t c,osFile oldfh,osFile newfh)
    osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
 
    if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
-      return;
+      return(TRUE);
 
    if(osRead(oldfh,buf,size) != size)
-      return;
+      return(TRUE);
 
    if(!osWrite(newfh,&size,sizeof(uint16_t)))
    {
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    if(!osWrite(newfh,buf,size))
@@ -102,8 +102,10 @@ void copydupe(uint16_t c,osFile oldfh,osFile newfh)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
+
+   return(TRUE);
 }
 
 bool OpenDupeDB(void)
@@ -185,6 +187,7 @@ void CloseDupeDB(void)
 {
    osFile newfh;
    uint32_t c;
+   bool ok;
    char duptemp[200];
 
    if(!dupechanged)
@@ -208,20 +211,32 @@ void CloseDupeDB(void)
       return;
    }
 
-   osWrite(newfh,DUPES_IDENTIFIER,4);
+   ok=osWrite(newfh,DUPES_IDENTIFIER,4);
 
-   for(c=dupeentrynum;c<dupeentrymax;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=dupeentrynum;ok && c<dupeentrymax;c++)
+      ok=copydupe(c,dupefh,newfh);
 
-   for(c=0;c<dupeentrynum;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=0;ok && c<dupeentrynum;c++)
+      ok=copydupe(c,dupefh,newfh);
 
    osClose(dupefh);
-   osClose(newfh);
+
+   if(!osClose(newfh))
+      ok=FALSE;
+
    osFree(dupebuf);
 
    dupechanged=FALSE;
 
+   if(!ok)
+   {
+      /* The old dupe file is still valid, keep it */
+
+      LogWrite(1,SYSTEMERR,"Failed to write temporary dupe file %s",duptemp);
+      osDelete(duptemp);
+      return;
+   }
+
    osDelete(config.cfg_DupeFile);
    osRename(duptemp,config.cfg_DupeFile);
 
-- 
2.43.0


From a4c1ab5b6ca9f51e8e9a2e430ce3b8e99fd50345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:40 +0000
Subject: [PATCH 16/59] fix: a node that requested an area from an uplink got
 write access although the area is DEFREADONLY

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..a52fd50 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -636,7 +636,7 @@ bool AreaFix(struct MemMessage *mm)
 
                                        flags=0;
 
-                                       if(CheckFlags(area->Group,cnode->ReadOnlyGroups))
+                                       if((area->Flags & AREA_DEFREADONLY) || CheckFlags(area->Group,cnode->ReadOnlyGroups))
                                           flags|=TOSSNODE_READONLY;
 
                                        AddTossNode(area,cnode,flags);
-- 
2.43.0


From 4d3319bb85f3c3f236063b0808aae26d3764f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 17/59] fix: seen-by lines and kludges were silently dropped
 when out of memory

---
 src/crashmail/mb_jam.c     | 3 +++
 src/crashmail/memmessage.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..971d9d5 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -620,7 +620,10 @@ void jam_makekludge(struct MemMessage *mm,char *pre,char *data,uint32_t len)
    char *buf;
 
 	if(!(buf=osAlloc(strlen(pre)+len+10))) /* A few bytes extra */
+	{
+		nomem=TRUE;
 		return;
+	}
 
    strcpy(buf,pre);
    if(len && data) mystrncpy(&buf[strlen(buf)],data,len+1);
diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 8e16f63..55a73b8 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -484,7 +484,10 @@ char *mmMakeSeenByBuf(struct jbList *list)
    /* Allocate our memory block */
 
    if(!(text=osAlloc(size)))
+   {
+      nomem=TRUE;
       return(NULL);
+   }
 
    text[0]=0;
 
-- 
2.43.0


From 43999851c6080b802f0decbfe0cfc38d18337844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 18/59] fix: packets that could not be given their final name
 were forgotten while the toss reported success

---
 src/crashmail/pkt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 2103856..fc42f57 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -698,6 +698,8 @@ void FinishPacket(struct Pkt *pkt)
 			uint32_t err=osError();
 			LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",oldname,newname);
 			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+			ioerror=TRUE;
+			ioerrornum=err;
 		}	
    }
    
-- 
2.43.0


From b4d0766a18857ac63ce8791befa58f9f04eb2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 19/59] fix: file-attaches were sent without the file when it
 could not be copied

---
 src/crashmail/handle.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index cd3f674..17dd78c 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1608,9 +1608,8 @@ bool HandleNetmail(struct MemMessage *mm)
 					if(osExists(buf))
                {
 						MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
-                  copyfile(buf,buf2);
 
-						if(nomem || ioerror)
+						if(!copyfile(buf,buf2))
 							return(FALSE);
 
                   AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
-- 
2.43.0


From ec6bae1d10ad5c1ea977fa22ab47942681b995c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 20/59] fix: filter commands were run and the message killed
 although it could not be written for them

---
 src/crashmail/filter.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 2e39be3..d27cc62 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -657,9 +657,16 @@ bool Filter_Execute(struct MemMessage *mm,char *cmd)
       origbuf,
       destbuf);
 
-   if(rfc1) WriteRFC(mm,rfcbuf1,FALSE);
-	if(rfc2) WriteRFC(mm,rfcbuf2,TRUE);
-   if(msg)  WriteMSG(mm,msgbuf);
+   if((rfc1 && !WriteRFC(mm,rfcbuf1,FALSE)) ||
+      (rfc2 && !WriteRFC(mm,rfcbuf2,TRUE)) ||
+      (msg && !WriteMSG(mm,msgbuf)))
+   {
+      if(rfc1) osDelete(rfcbuf1);
+      if(rfc2) osDelete(rfcbuf2);
+      if(msg) osDelete(msgbuf);
+
+      return(FALSE);
+   }
 
    LogWrite(4,SYSTEMINFO,"Filter: Executing external command \"%s\"",buf);
 
-- 
2.43.0


From b15ec6e34742b97e7f22fef1420cfcddcd02c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 21/59] fix: a file that could neither be added to the flow
 file nor get an .orphan file was forgotten

---
 src/crashmail/outbound.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 81afaf3..bc0532b 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -460,6 +460,8 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",buf);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      ioerror=TRUE;
+      ioerrornum=err;
       return;
    }
 
@@ -469,8 +471,11 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 
    strcat(buf,"\n");
 
-   osPuts(fh,buf);
-   osClose(fh);
+   if(!osPuts(fh,buf))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 }
 
 /* Only call if file is already locked */
-- 
2.43.0


From eecd90113b0771df81ea775f74197d68c18a29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:42 +0000
Subject: [PATCH 22/59] fix: messages imported into JAM were reported as stored
 although writing them failed

---
 src/crashmail/mb_jam.c |  4 +++-
 src/jamlib/mbase.c     | 32 ++++++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 971d9d5..5b52b35 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -602,7 +602,9 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
 
-   JAM_UnlockMB(ja->Base_PS);
+   if(JAM_UnlockMB(ja->Base_PS))
+      res=JAM_IO_ERROR;
+
    JAM_DelSubPacket(SubPacket_PS);
    if(msgsize) osFree(msgtext);
 
diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..bde39cb 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -332,12 +332,29 @@ int JAM_LockMB( s_JamBase* Base_PS, int Timeout_I )
 ***********************************************************************/
 int JAM_UnlockMB( s_JamBase* Base_PS )
 {
-    fflush( Base_PS->HdrFile_PS );
-    fflush( Base_PS->TxtFile_PS );
-    fflush( Base_PS->IdxFile_PS );
-    fflush( Base_PS->LrdFile_PS );
+    int Status_I = 0;
+    int Result_I;
 
-    return jam_Lock( Base_PS, 0 );
+    if ( fflush( Base_PS->HdrFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	Status_I = JAM_IO_ERROR;
+    }
+    if ( fflush( Base_PS->TxtFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	Status_I = JAM_IO_ERROR;
+    }
+    if ( fflush( Base_PS->IdxFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	Status_I = JAM_IO_ERROR;
+    }
+    if ( fflush( Base_PS->LrdFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	Status_I = JAM_IO_ERROR;
+    }
+
+    Result_I = jam_Lock( Base_PS, 0 );
+
+    return Status_I ? Status_I : Result_I;
 }
 
 /***********************************************************************
@@ -391,7 +408,10 @@ int JAM_WriteMBHeader( s_JamBase* Base_PS, s_JamBaseHeader* Header_PS )
 	return JAM_IO_ERROR;
     }
 
-    fflush( Base_PS->HdrFile_PS );
+    if ( fflush( Base_PS->HdrFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	return JAM_IO_ERROR;
+    }
 
     return 0;
 }
-- 
2.43.0


From 03f9cf865a33a2e64402bd385ca96a422bf5ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:32 +0000
Subject: [PATCH 23/59] fix: inbound files were deleted although memory ran out
 while their mail was processed

---
 src/crashmail/crashmail.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index de87a1a..f508105 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,7 +152,7 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
-   if(ioerror)
+   if(ioerror || nomem)
       success=FALSE;
 
    if(success)
-- 
2.43.0


From cef1a0f56685cf66adba930aa32ffca30a0b3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 24/59] fix: the configuration file was replaced by an
 incomplete one when writing it failed

---
 src/crashmail/config.c | 184 +++++++++++++++++++++++++----------------
 1 file changed, 111 insertions(+), 73 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 949e251..5498071 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -1975,6 +1975,24 @@ void InitConfig(struct Config *cfg)
    jbNewList(&cfg->FilterList);
 }
 
+static void cfgPrintf(osFile fh,char *fmt,...)
+{
+   va_list args;
+
+   va_start(args,fmt);
+
+   if(!osVFPrintf(fh,fmt,args))
+      { ioerror=TRUE; ioerrornum=osError(); }
+
+   va_end(args);
+}
+
+static void cfgPuts(osFile fh,char *str)
+{
+   if(!osPuts(fh,str))
+      { ioerror=TRUE; ioerrornum=osError(); }
+}
+
 void WriteSafely(osFile fh,char *str)
 {
    char buf[300];
@@ -1992,12 +2010,12 @@ void WriteSafely(osFile fh,char *str)
 
    buf[d]=0;
 
-   osFPrintf(fh,"\"%s\"",buf);
+   cfgPrintf(fh,"\"%s\"",buf);
 }
 
 void WriteNode4D(osFile fh,struct Node4D *n4d)
 {
-   osFPrintf(fh,"%u:%u/%u.%u",n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
+   cfgPrintf(fh,"%u:%u/%u.%u",n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
 }
 
 char *nodekeywords[]={"DEFAULTGROUP","REMOTESYSOP","REMOTEAF",
@@ -2010,9 +2028,9 @@ char *areakeywords[]={"IGNORESEENBY","IGNOREDUPES","DEFREADONLY",
 
 void WriteNode(struct ConfigNode *tmpnode,osFile osfh)
 {
-   osFPrintf(osfh,"NODE ");
+   cfgPrintf(osfh,"NODE ");
    WriteNode4D(osfh,&tmpnode->Node);
-   osFPrintf(osfh," ");
+   cfgPrintf(osfh," ");
 
    if(tmpnode->Packer)
       WriteSafely(osfh,tmpnode->Packer->Name);
@@ -2020,97 +2038,97 @@ void WriteNode(struct ConfigNode *tmpnode,osFile osfh)
    else
       WriteSafely(osfh,"");
 
-   osFPrintf(osfh," ");
+   cfgPrintf(osfh," ");
    WriteSafely(osfh,tmpnode->PacketPW);
 
    if(tmpnode->Flags & NODE_PASSIVE)
-      osFPrintf(osfh," PASSIVE");
+      cfgPrintf(osfh," PASSIVE");
 
    if(tmpnode->Flags & NODE_NOTIFY)
-      osFPrintf(osfh," NOTIFY");
+      cfgPrintf(osfh," NOTIFY");
 
    if(tmpnode->Flags & NODE_NOSEENBY)
-      osFPrintf(osfh," NOSEENBY");
+      cfgPrintf(osfh," NOSEENBY");
 
    if(tmpnode->Flags & NODE_TINYSEENBY)
-      osFPrintf(osfh," TINYSEENBY");
+      cfgPrintf(osfh," TINYSEENBY");
 
    if(tmpnode->Flags & NODE_FORWARDREQ)
-      osFPrintf(osfh," FORWARDREQ");
+      cfgPrintf(osfh," FORWARDREQ");
 
    if(tmpnode->Flags & NODE_PACKNETMAIL)
-      osFPrintf(osfh," PACKNETMAIL");
+      cfgPrintf(osfh," PACKNETMAIL");
 
 	if(tmpnode->Flags & NODE_NONETMAILPASSWORD)
-      osFPrintf(osfh," NONETMAILPASSWORD");
+      cfgPrintf(osfh," NONETMAILPASSWORD");
 
    if(tmpnode->Flags & NODE_SENDAREAFIX)
-      osFPrintf(osfh," SENDAREAFIX");
+      cfgPrintf(osfh," SENDAREAFIX");
 
    if(tmpnode->Flags & NODE_SENDTEXT)
-      osFPrintf(osfh," SENDTEXT");
+      cfgPrintf(osfh," SENDTEXT");
 
    if(tmpnode->Flags & NODE_AUTOADD)
-      osFPrintf(osfh," AUTOADD");
+      cfgPrintf(osfh," AUTOADD");
 
    if(tmpnode->EchomailPri == PKTS_CRASH)
-      osFPrintf(osfh," CRASH");
+      cfgPrintf(osfh," CRASH");
 
    if(tmpnode->EchomailPri == PKTS_DIRECT)
-      osFPrintf(osfh," DIRECT");
+      cfgPrintf(osfh," DIRECT");
 
    if(tmpnode->EchomailPri == PKTS_HOLD)
-      osFPrintf(osfh," HOLD");
+      cfgPrintf(osfh," HOLD");
 
-   osFPrintf(osfh,"\n");
+   cfgPrintf(osfh,"\n");
 
 	if(tmpnode->Flags & NODE_PKTFROM)
 	{
-      osFPrintf(osfh,"PKTFROM ");
+      cfgPrintf(osfh,"PKTFROM ");
 	   WriteNode4D(osfh,&tmpnode->PktFrom);
-   	osFPrintf(osfh,"\n");
+   	cfgPrintf(osfh,"\n");
 	}
 
    if(tmpnode->AreafixPW[0] || tmpnode->Groups[0] || tmpnode->ReadOnlyGroups[0] || tmpnode->AddGroups[0])
    {
-      osFPrintf(osfh,"AREAFIXINFO ");
+      cfgPrintf(osfh,"AREAFIXINFO ");
       WriteSafely(osfh,tmpnode->AreafixPW);
-      osFPrintf(osfh," ");
+      cfgPrintf(osfh," ");
 
       WriteSafely(osfh,tmpnode->Groups);
-      osFPrintf(osfh," ");
+      cfgPrintf(osfh," ");
 
       WriteSafely(osfh,tmpnode->ReadOnlyGroups);
-      osFPrintf(osfh," ");
+      cfgPrintf(osfh," ");
 
       WriteSafely(osfh,tmpnode->AddGroups);
-      osFPrintf(osfh," ");
+      cfgPrintf(osfh," ");
 
-      osFPrintf(osfh,"\n");
+      cfgPrintf(osfh,"\n");
    }
 
    if(tmpnode->RemoteAFName[0])
    {
-      osFPrintf(osfh,"REMOTEAF ");
+      cfgPrintf(osfh,"REMOTEAF ");
       WriteSafely(osfh,tmpnode->RemoteAFName);
-      osFPrintf(osfh," ");
+      cfgPrintf(osfh," ");
       WriteSafely(osfh,tmpnode->RemoteAFPw);
 
 	   if(tmpnode->Flags & NODE_AFNEEDSPLUS)
-   	   osFPrintf(osfh," NEEDSPLUS");
+   	   cfgPrintf(osfh," NEEDSPLUS");
 
-      osFPrintf(osfh,"\n");
+      cfgPrintf(osfh,"\n");
 }
 
    if(tmpnode->SysopName[0])
    {
-      osFPrintf(osfh,"REMOTESYSOP ");
+      cfgPrintf(osfh,"REMOTESYSOP ");
       WriteSafely(osfh,tmpnode->SysopName);
-      osFPrintf(osfh,"\n");
+      cfgPrintf(osfh,"\n");
    }
 
    if(tmpnode->DefaultGroup)
-      osFPrintf(osfh,"DEFAULTGROUP %lc\n",tmpnode->DefaultGroup);
+      cfgPrintf(osfh,"DEFAULTGROUP %lc\n",tmpnode->DefaultGroup);
 }
 
 void WriteArea(struct Area *tmparea,osFile osfh)
@@ -2121,27 +2139,27 @@ void WriteArea(struct Area *tmparea,osFile osfh)
    uint32_t c;
 
    if(tmparea->AreaType == AREATYPE_NETMAIL)
-      osFPrintf(osfh,"NETMAIL ");
+      cfgPrintf(osfh,"NETMAIL ");
 
    if(tmparea->AreaType == AREATYPE_LOCAL)
-      osFPrintf(osfh,"LOCALAREA ");
+      cfgPrintf(osfh,"LOCALAREA ");
 
    else
-      osFPrintf(osfh,"AREA ");
+      cfgPrintf(osfh,"AREA ");
 
    WriteSafely(osfh,tmparea->Tagname);
-   osFPrintf(osfh," ");
+   cfgPrintf(osfh," ");
    WriteNode4D(osfh,&tmparea->Aka->Node);
 
    if(tmparea->Messagebase)
    {
-      osFPrintf(osfh," %s ",tmparea->Messagebase->name);
+      cfgPrintf(osfh," %s ",tmparea->Messagebase->name);
       WriteSafely(osfh,tmparea->Path);
-      osFPrintf(osfh,"\n");
+      cfgPrintf(osfh,"\n");
    }
 	else
 	{
-      osFPrintf(osfh,"\n");
+      cfgPrintf(osfh,"\n");
 	}
 	      
    if(tmparea->AreaType == AREATYPE_NETMAIL)
@@ -2152,15 +2170,15 @@ void WriteArea(struct Area *tmparea,osFile osfh)
       {
          if(c%10==0)
          {
-            if(c!=0) osFPrintf(osfh,"\n");
-            osFPrintf(osfh,"IMPORT");
+            if(c!=0) cfgPrintf(osfh,"\n");
+            cfgPrintf(osfh,"IMPORT");
          }
 
-         osFPrintf(osfh," ");
+         cfgPrintf(osfh," ");
          WriteNode4D(osfh,&tmpinode->Node);
          c++;
       }
-      if(c!=0) osFPrintf(osfh,"\n");
+      if(c!=0) cfgPrintf(osfh,"\n");
    }
    else if(tmparea->AreaType == AREATYPE_ECHOMAIL || tmparea->AreaType == AREATYPE_DEFAULT)
    {
@@ -2170,25 +2188,25 @@ void WriteArea(struct Area *tmparea,osFile osfh)
       {
          if(c%10==0)
          {
-            if(c!=0) osFPrintf(osfh,"\n");
-            osFPrintf(osfh,"EXPORT");
+            if(c!=0) cfgPrintf(osfh,"\n");
+            cfgPrintf(osfh,"EXPORT");
          }
 
-         osFPrintf(osfh," ");
+         cfgPrintf(osfh," ");
 
          if(tmptnode->Flags & TOSSNODE_READONLY)
-            osFPrintf(osfh,"!");
+            cfgPrintf(osfh,"!");
 
          if(tmptnode->Flags & TOSSNODE_WRITEONLY)
-            osFPrintf(osfh,"@");
+            cfgPrintf(osfh,"@");
 
          if(tmptnode->Flags & TOSSNODE_FEED)
-            osFPrintf(osfh,"%%");
+            cfgPrintf(osfh,"%%");
 
          WriteNode4D(osfh,&tmptnode->ConfigNode->Node);
          c++;
       }
-      if(c!=0) osFPrintf(osfh,"\n");
+      if(c!=0) cfgPrintf(osfh,"\n");
    }
 
    c=0;
@@ -2196,46 +2214,46 @@ void WriteArea(struct Area *tmparea,osFile osfh)
    {
       if(c%10==0)
       {
-         if(c!=0) osFPrintf(osfh,"\n");
-         osFPrintf(osfh,"BANNED");
+         if(c!=0) cfgPrintf(osfh,"\n");
+         cfgPrintf(osfh,"BANNED");
       }
 
-      osFPrintf(osfh," ");
+      cfgPrintf(osfh," ");
       WriteNode4D(osfh,&tmpbnode->ConfigNode->Node);
       c++;
    }
-   if(c!=0) osFPrintf(osfh,"\n");
+   if(c!=0) cfgPrintf(osfh,"\n");
 
    if(tmparea->Description[0]!=0)
    {
-      osFPrintf(osfh,"DESCRIPTION ");
+      cfgPrintf(osfh,"DESCRIPTION ");
       WriteSafely(osfh,tmparea->Description);
-      osFPrintf(osfh,"\n");
+      cfgPrintf(osfh,"\n");
    }
 
    if(tmparea->Group)
-      osFPrintf(osfh,"GROUP %lc\n",tmparea->Group);
+      cfgPrintf(osfh,"GROUP %lc\n",tmparea->Group);
 
    if(tmparea->KeepNum)
-      osFPrintf(osfh,"KEEPNUM %u\n",tmparea->KeepNum);
+      cfgPrintf(osfh,"KEEPNUM %u\n",tmparea->KeepNum);
 
    if(tmparea->KeepDays)
-      osFPrintf(osfh,"KEEPDAYS %u\n",tmparea->KeepDays);
+      cfgPrintf(osfh,"KEEPDAYS %u\n",tmparea->KeepDays);
 
    if(tmparea->Flags & AREA_UNCONFIRMED)
-      osFPrintf(osfh,"UNCONFIRMED\n");
+      cfgPrintf(osfh,"UNCONFIRMED\n");
 
    if(tmparea->Flags & AREA_MANDATORY)
-      osFPrintf(osfh,"MANDATORY\n");
+      cfgPrintf(osfh,"MANDATORY\n");
 
    if(tmparea->Flags & AREA_DEFREADONLY)
-      osFPrintf(osfh,"DEFREADONLY\n");
+      cfgPrintf(osfh,"DEFREADONLY\n");
 
    if(tmparea->Flags & AREA_IGNOREDUPES)
-      osFPrintf(osfh,"IGNOREDUPES\n");
+      cfgPrintf(osfh,"IGNOREDUPES\n");
 
    if(tmparea->Flags & AREA_IGNORESEENBY)
-      osFPrintf(osfh,"IGNORESEENBY\n");
+      cfgPrintf(osfh,"IGNORESEENBY\n");
 }
 
 bool UpdateConfig(struct Config *cfg,char *cfgerr)
@@ -2294,7 +2312,7 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
             {
                skiparea=TRUE;
                WriteArea(area,newfh);
-				   osFPrintf(newfh,"\n");
+				   cfgPrintf(newfh,"\n");
                area->changed=FALSE;
             }
 
@@ -2322,7 +2340,7 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
                {
                   skipnode=TRUE;
                   WriteNode(cnode,newfh);
-   				   osFPrintf(newfh,"\n");
+   				   cfgPrintf(newfh,"\n");
                   cnode->changed=FALSE;
                }
             }
@@ -2350,23 +2368,43 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       }
 
       if(!dontwrite)
-         osPuts(newfh,cfgbuf);
+         cfgPuts(newfh,cfgbuf);
    }
 
    for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
       if(area->changed)
       {
-		   osFPrintf(newfh,"\n");
+		   cfgPrintf(newfh,"\n");
          WriteArea(area,newfh);
          area->changed=FALSE;
       }
 
    osClose(oldfh);
-   osClose(newfh);
+
+   if(!osClose(newfh))
+      { ioerror=TRUE; ioerrornum=osError(); }
+
+   if(ioerror)
+   {
+      sprintf(cfgerr,"Unable to write to config file %s, configuration not updated",cfgtemp);
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
 
    osDelete(cfgbak);
-   osRename(cfg->filename,cfgbak);
-   osRename(cfgtemp,cfg->filename);
+
+   if(!osRename(cfg->filename,cfgbak))
+   {
+      sprintf(cfgerr,"Unable to rename %s, configuration not updated",cfg->filename);
+      return(FALSE);
+   }
+
+   if(!osRename(cfgtemp,cfg->filename))
+   {
+      sprintf(cfgerr,"Unable to rename %s, configuration not updated",cfgtemp);
+      osRename(cfgbak,cfg->filename);
+      return(FALSE);
+   }
 
    cfg->changed=FALSE;
 
-- 
2.43.0


From 6d1dad58b8ee4053da54c097fb5555ad5d4f7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:19 +0000
Subject: [PATCH 25/59] fix: changed netmail areas were written to the
 configuration as "NETMAIL AREA" and changed local areas twice

---
 src/crashmail/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 5498071..f34e950 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2024,7 +2024,7 @@ char *nodekeywords[]={"DEFAULTGROUP","REMOTESYSOP","REMOTEAF",
 char *areakeywords[]={"IGNORESEENBY","IGNOREDUPES","DEFREADONLY",
                        "MANDATORY","UNCONFIRMED","KEEPNUM","KEEPDAYS",
                        "GROUP","DESCRIPTION","BANNED","EXPORT","IMPORT",
-                       "AREA","NETMAIL",NULL};
+                       "AREA","NETMAIL","LOCALAREA",NULL};
 
 void WriteNode(struct ConfigNode *tmpnode,osFile osfh)
 {
@@ -2141,7 +2141,7 @@ void WriteArea(struct Area *tmparea,osFile osfh)
    if(tmparea->AreaType == AREATYPE_NETMAIL)
       cfgPrintf(osfh,"NETMAIL ");
 
-   if(tmparea->AreaType == AREATYPE_LOCAL)
+   else if(tmparea->AreaType == AREATYPE_LOCAL)
       cfgPrintf(osfh,"LOCALAREA ");
 
    else
-- 
2.43.0


From ede113563b0b6782b28804bbee4a118d80ebb804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:27 +0000
Subject: [PATCH 26/59] fix: writes behind the end of fixed-size fields for
 long domains, groups and AreaFix lines

---
 src/crashmail/areafix.c | 2 +-
 src/crashmail/config.c  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index a52fd50..249dbd1 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,7 +120,7 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
+         for(d=0;d<99 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
             buf[d]=chunk->Data[c+d];
 
          buf[d]=0;
diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index f34e950..7ccc26e 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -160,7 +160,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(!(jbstrcpy(LastAka->Domain,cfgbuf,200,&jbcpos)))
+         if(!(jbstrcpy(LastAka->Domain,cfgbuf,20,&jbcpos)))
          {
             strcpy(cfgerr,"Missing argument");
             osClose(cfgfh);
@@ -341,7 +341,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(jbstrcpy(LastCNode->Groups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->Groups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->Groups))
             {
@@ -351,7 +351,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->ReadOnlyGroups))
             {
@@ -361,7 +361,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->AddGroups))
             {
-- 
2.43.0


From 7ddc3cc8ebc7065165faf17f3772a61fb6beaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:15 +0000
Subject: [PATCH 27/59] fix: AreaFix crashed when a forwarded area could not be
 created

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 249dbd1..d3c751e 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -628,12 +628,12 @@ bool AreaFix(struct MemMessage *mm)
                                     RemoteAreafixAdd(areaname,arealist->Node);
 
                                     area=AddArea(areaname,&arealist->Node->Node,&tmproute->Aka->Node,TRUE,config.cfg_Flags & CFG_FORWARDPASSTHRU);
-                                    area->Group=arealist->Group;
 
                                     if(area)
                                     {
                                        uint16_t flags;
 
+                                       area->Group=arealist->Group;
                                        flags=0;
 
                                        if((area->Flags & AREA_DEFREADONLY) || CheckFlags(area->Group,cnode->ReadOnlyGroups))
-- 
2.43.0


From 998866746e699b70a6b81771039b6b8a754eb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 28/59] fix: room for the terminator of the last bundle name of
 a node

A bundle name such as 0000fffe.mo0 has twelve characters. It was copied with
mystrncpy(...,13) to an array of twelve bytes, so the terminator ended up in
the counter of received netmails that follows it.
---
 src/crashmail/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..b20ea8b 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -175,7 +175,7 @@ struct ConfigNode
 
    struct jbList RemoteAFList;
 
-   char LastArcName[12];
+   char LastArcName[13];
 	
    /* Stats */
 
-- 
2.43.0


From 1b253dd2f929ed4b9e0fcb487d6f3ab3941e29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:28 +0000
Subject: [PATCH 29/59] fix: long lines and subjects of AreaFix replies were
 written behind the end of their buffers

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index d3c751e..bad3971 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1475,7 +1475,7 @@ void afAddLine(struct afReply *afr,char *fmt,...)
       strcpy(buf,"\x0d(Continued in next message)\x0d");
 		mmAddLine(afr->mm,buf);
 
-      sprintf(afr->mm->Subject,"%s (part %d)",afr->subject,afr->part);
+      snprintf(afr->mm->Subject,72,"%s (part %d)",afr->subject,afr->part);
       afSendMessage(afr);
       jbFreeList(&afr->mm->TextChunks);
 
@@ -1491,7 +1491,7 @@ void afAddLine(struct afReply *afr,char *fmt,...)
    }
 
    va_start(args, fmt);
-   vsprintf(buf,fmt,args);
+   vsnprintf(buf,199,fmt,args);
    va_end(args);
 
    strcat(buf,"\x0d");
@@ -1503,7 +1503,7 @@ void afAddLine(struct afReply *afr,char *fmt,...)
 void afSendMessage(struct afReply *afr)
 {
    if(afr->part != 1) 
-		sprintf(afr->mm->Subject,"%s (part %d)",afr->subject,afr->part);
+		snprintf(afr->mm->Subject,72,"%s (part %d)",afr->subject,afr->part);
 
 	else					
 		strcpy(afr->mm->Subject,afr->subject);
-- 
2.43.0


From d3de12fd7f844e4d1507789a27f4d5d9fae7ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 30/59] fix: the notice about a removed area with a long name
 did not fit in its buffer

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index bad3971..14e126a 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -732,7 +732,7 @@ bool AreaFix(struct MemMessage *mm)
 void SendRemoveMessages(struct Area *area)
 {
    struct TossNode *tn;
-   char buf[100];
+   char buf[200];
    struct MemMessage *mm;
 	
    for(tn=(struct TossNode *)area->TossNodes.First;tn;tn=tn->Next)
-- 
2.43.0


From 75bb13b7a2353a72215c8b07d6d5d31910186e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 31/59] fix: long words in filters were written behind the end
 of buffers, and long invalid filters were accepted

---
 src/crashmail/filter.c | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index d27cc62..7ad3add 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -58,7 +58,7 @@ int filter_nllookup(struct Node4D *node)
 
 int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct Node4DPat pat;
 
    if(operator[0]==0)
@@ -101,7 +101,7 @@ int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,i
 
 int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -146,7 +146,7 @@ int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,i
 
 int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -190,7 +190,7 @@ int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int d
 
 int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct TextChunk *chunk;
    long start,pos,c;
 
@@ -235,7 +235,7 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 int filter_evalfunc(char *str,int *errpos,char **errstr)
 {
    char type[20],source[20];
-   static char errbuf[100];
+   static char errbuf[200];
    struct Aka *aka;
    struct ConfigNode *cnode;
    bool fileattach,tolocalaka,fromlocalaka,tolocalpoint,fromlocalpoint;
@@ -729,7 +729,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    struct Route *tmproute;
    struct jbList oldlist;
    struct TextChunk *tmp;
-   char buf[100];
+   char buf[200];
    char oldto[36],newto[36];
    struct Node4D olddest4d,newdest4d,my4d;
    uint32_t c,d;
@@ -747,7 +747,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    ExpandNodePat(destpat,&mm->DestNode,&newdest4d);
 
    if(strcmp(namepat,"*")==0) strcpy(newto,mm->To);
-   else                       strcpy(newto,namepat);
+   else                       mystrncpy(newto,namepat,36);
 
    my4d.Zone=0;
    my4d.Net=0;
@@ -854,7 +854,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	ExpandNodePat(destpat,&mm->OrigNode,&neworig4d);
 
     if(strcmp(namepat,"*")==0) strcpy(newfrom,mm->From);
-    else                       strcpy(newfrom,namepat);
+    else                       mystrncpy(newfrom,namepat,36);
 	strcpy (mm->From, newfrom);
 
 	LogWrite(4,SYSTEMINFO, "Filter: Masquerade message as %s at %u:%u/%u.%u",
@@ -1087,7 +1087,6 @@ bool CheckFilter(char *filter,char *cfgerr)
    char *errstr;
    int errpos,res;
    struct MemMessage *mm;
-   int c;
 
    if(!(expr=expr_makeexpr(filter)))
    {
@@ -1115,18 +1114,10 @@ bool CheckFilter(char *filter,char *cfgerr)
 		}
 		else
 		{
-	      sprintf(cfgerr," Syntax error in filter:\n  %s\n",filter);
-
-   	   for(c=0;c<errpos+2;c++)
-      	   strcat(cfgerr," ");
-
-	      strcat(cfgerr,"^");
-   	   strcat(cfgerr,"\n");
-         strcat(cfgerr," ");
-         strcat(cfgerr,errstr);
-
-	      return(FALSE);
+	      snprintf(cfgerr,500," Syntax error in filter:\n  %s\n%*s^\n %s",filter,errpos+2,"",errstr);
 		}
+
+		return(FALSE);
    }
 
    return(TRUE);
-- 
2.43.0


From 0f44f13900dd58157c7121aec2f22eb072422b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 32/59] fix: the message about a failed configuration update
 did not fit in its buffer

---
 src/crashmail/crashmail.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index f508105..f1c06bc 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -147,7 +147,7 @@ void AfterScanToss(bool success)
 {
    struct Area *area;
    struct ConfigNode *cnode;
-   char errbuf[200];
+   char errbuf[500];
    uint32_t day,d,e,i;
 
    ClosePackets();
@@ -219,7 +219,7 @@ void AfterScanToss(bool success)
          LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
 
          if(!UpdateConfig(&config,errbuf))
-            LogWrite(1,SYSTEMERR,errbuf);
+            LogWrite(1,SYSTEMERR,"%s",errbuf);
       }
    }
 
-- 
2.43.0


From 55096856767a3d22879f002a2dd508fab0b5f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 33/59] fix: long configuration file names were written behind
 the end of a buffer

---
 src/crashmail/crashmail.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index f1c06bc..3964310 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -485,6 +485,12 @@ bool LockConfig(char *file)
 	char buf[200];
 	osFile fp;
 	
+	if(strlen(file) > 99) /* config.filename has no room for it */
+	{
+		printf("The name of the configuration file is too long\n");
+		return(FALSE);
+	}
+
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
@@ -513,7 +519,7 @@ void UnlockConfig(char *file)
 {
 	char buf[200];
 	
-	strcpy(buf,file);
+	mystrncpy(buf,file,190);
 	strcat(buf,".busy");
 	
 	osDelete(buf);
-- 
2.43.0


From 6cd6705a69a5d1bd31b88e6593b4c443d4af2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 34/59] fix: a damaged entry in the dupe file was read behind
 the end of a buffer

---
 src/crashmail/dupe.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 0302902..dc294a2 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -86,6 +86,9 @@ bool copydupe(uint32_t c,osFile oldfh,osFile newfh)
    if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
       return(TRUE);
 
+   if(size > 300)
+      return(TRUE);
+
    if(osRead(oldfh,buf,size) != size)
       return(TRUE);
 
-- 
2.43.0


From 8a32072b863cf0e619ec8d8bc1aabb9363e6e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 35/59] fix: long fields of JAM messages were written behind
 the end of buffers

---
 src/crashmail/mb_jam.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 5b52b35..cc6c2f9 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -746,7 +746,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -759,7 +759,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));
 
             if(hasaddr)
             {
@@ -779,12 +779,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -797,7 +797,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -807,7 +807,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else mystrncpy(filesubject,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -840,7 +840,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(&flagsbuf[8],Field_PS->Buffer,MIN(150,Field_PS->DatLen+1));
             /* Don't add until attributes from header has been added */
             break;
       }
-- 
2.43.0


From 23b9525a755695cd898bc59759ffd6de74eee851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 36/59] fix: the FLAGS kludge of exported JAM messages was
 replaced by the text of another field

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index cc6c2f9..0cf9933 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -876,7 +876,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From b3bf0867deafe6e980d748f1540c5c85d475411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 37/59] fix: a crash when the last line of a message imported
 to JAM is a kludge without text

---
 src/crashmail/mb_jam.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 0cf9933..6712bcb 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -465,28 +465,28 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
          {
             if(linelen>=5 && strncmp(&msgtext[linebegin],"\x01""PID:",5)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5));
+               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-4));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_PID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""MSGID:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-6));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-6));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-6));
                stripleadtrail(buf);
 
                jbcpos=0;
@@ -531,7 +531,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
             }
             else if(msgtext[linebegin]==1)
             {
-               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1));
+               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,buf);
 					msgpos=linebegin;
-- 
2.43.0


From 9bd1fab499102c8edc8b7d679f834278f269d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 38/59] fix: many flags in a message imported to JAM were
 written behind the end of a buffer

---
 src/crashmail/mb_jam.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 6712bcb..8f59c26 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -302,7 +302,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    struct jam_Area *ja;
    s_JamSubPacket*	SubPacket_PS;
    s_JamMsgHeader	Header_S;
-   char buf[100],newflags[100],flag[10];
+   char buf[100],newflags[200],flag[10];
    uint32_t c,f,jbcpos,linebegin,linelen;
    char *msgtext;
    uint32_t msgsize,msgpos;
@@ -500,7 +500,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
                   {      
                      Header_S.Attribute |= flagbit;
                   }
-                  else
+                  else if(strlen(newflags)+strlen(flag) < 190)
                   {
                      strcat(newflags,flag);
                      strcat(newflags," ");
-- 
2.43.0


From 0dd4b5fc90998a0e929fca64c24b9c8ff47c64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 39/59] fix: long receiver names were written behind the end of
 a buffer in JAM_AddMessage

---
 src/jamlib/message.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..f904eda 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -424,8 +424,13 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 
 	   /* store username for index file */
 	   if ( Subfield_PS->LoID == JAMSFLD_RECVRNAME ) {
-	      memcpy( User_AC, Subfield_PS->Buffer, Subfield_PS->DatLen );
-	      User_AC[ Subfield_PS->DatLen ] = 0;
+	      uint32_t	Len_I = Subfield_PS->DatLen;
+
+	      if ( Len_I > sizeof( User_AC ) - 1 )
+	         Len_I = sizeof( User_AC ) - 1;
+
+	      memcpy( User_AC, Subfield_PS->Buffer, Len_I );
+	      User_AC[ Len_I ] = 0;
 	   }
 	}
 
-- 
2.43.0


From b272061423582a5599461be9bebc02f3e1aa5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 40/59] fix: expanded commands were written behind the end of
 their buffer

---
 src/crashmail/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index e571c5c..6573241 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -5,7 +5,7 @@ void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *arc,char *file)
    uint32_t c,d;
 
    d=0;
-   for(c=0;c<strlen(cmd);c++)
+   for(c=0;c<strlen(cmd) && d<destsize-1;c++)
    {
       if(cmd[c]=='%' && (cmd[c+1]|32)=='a')
       {
@@ -46,7 +46,7 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
    uint32_t c,d;
 
    d=0;
-   for(c=0;c<strlen(cmd);c++)
+   for(c=0;c<strlen(cmd) && d<destsize-1;c++)
    {
       if(cmd[c]=='%' && (cmd[c+1])=='a')
       {
-- 
2.43.0


From 94d128b0ab5bae4f42307fdc98b4a9ce6210aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 41/59] fix: RFC addresses of long names did not fit in their
 buffer

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 6573241..e54b8d9 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -678,7 +678,7 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
    struct Aka *aka;
    struct TextChunk *tmp;
    uint32_t c,d,lastspace;
-   char buffer[100],fromaddr[100],toaddr[100];
+   char buffer[100],fromaddr[200],toaddr[200];
 
    for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
       if(Compare4D(&mm->DestNode,&aka->Node)==0) break;
-- 
2.43.0


From a6b10e2f5ce26c0de6db3cc0be68f06b213cbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 42/59] fix: long area names and bounce reasons were written
 behind the end of their buffers

---
 src/crashmail/handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 17dd78c..6829ac8 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -246,7 +246,7 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
    if(!active)
       temparea->Flags=AREA_UNCONFIRMED;
 
-   strcpy(temparea->Tagname,name);
+   mystrncpy(temparea->Tagname,name,80);
 
    temparea->Aka=tempaka;
 	temparea->AreaType = AREATYPE_ECHOMAIL;
@@ -892,7 +892,7 @@ bool Bounce(struct MemMessage *mm,char *reason,bool headeronly)
    if(config.cfg_Flags & CFG_ADDTID)
       AddTID(tmpmm);
 
-   strncpy(buf,reason,390);
+   mystrncpy(buf,reason,390);
    strcat(buf,"\x0d\x0d");
 
    mmAddLine(tmpmm,buf);
-- 
2.43.0


From 09b5dedddc866379819787579118cde30c521f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 43/59] fix: names of orphan files did not fit in their buffer

---
 src/crashmail/outbound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index bc0532b..009a5b0 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -449,7 +449,7 @@ void HandleOrphan(char *name)
 
 void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 {
-   char buf[200];
+   char buf[210];
    osFile fh;
 
    strcpy(buf,file);
-- 
2.43.0


From 26193f8871a3b0e1fe1a12c444a791c9fe233044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 44/59] fix: the list of nodes in crashexport was written
 behind its end

---
 src/tools/crashexport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashexport.c b/src/tools/crashexport.c
index 5abe393..5fc0c82 100644
--- a/src/tools/crashexport.c
+++ b/src/tools/crashexport.c
@@ -320,7 +320,7 @@ int main(int argc, char **argv)
 				
 					Print4D(&tmp4d,buf);
 					
-					if(strlen(export) < sizeof(export)-20)
+					if(strlen(export) < sizeof(export)-30)
 					{
 						if(export[0]) strcat(export," ");
       		      strcat(export,buf);
-- 
2.43.0


From b5c63d377b7dc50c20731baa7402aa69a86d10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:28 +0000
Subject: [PATCH 45/59] fix: create lock and busy files exclusively, so two
 programs cannot both get them

---
 src/crashmail/crashmail.c | 25 +++++++++++++++++--------
 src/crashmail/outbound.c  |  2 +-
 src/oslib/osfile.h        |  1 +
 src/oslib_linux/osfile.c  |  4 ++++
 src/oslib_win32/osfile.c  |  6 ++++++
 5 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 3964310..109a79d 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -484,6 +484,7 @@ bool LockConfig(char *file)
 {
 	char buf[200];
 	osFile fp;
+	bool failed=FALSE;
 	
 	if(strlen(file) > 99) /* config.filename has no room for it */
 	{
@@ -494,8 +495,22 @@ bool LockConfig(char *file)
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
-	while(osExists(buf))
+	while(!(fp=osOpen(buf,MODE_CREATEFILE)))
 	{
+		if(!osExists(buf))
+		{
+			if(failed)
+			{
+				printf("Failed to create lock file %s\n",buf);
+				return(FALSE);
+			}
+
+			failed=TRUE; /* Try again, the other program may just have removed it */
+			continue;
+		}
+
+		failed=FALSE;
+
 		printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
 
 		osSleep(10);
@@ -503,13 +518,7 @@ bool LockConfig(char *file)
 		if(ctrlc)
 			return(FALSE);
 	}
-	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
-	{
-		printf("Failed to create lock file %s\n",buf);
-		return(FALSE);
-	}
-	
+
 	osClose(fp);
 
 	return(TRUE);
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 009a5b0..1c7842a 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -15,7 +15,7 @@ bool LockBasename(char *basename)
 	if(osExists(buf))
 		return(FALSE);
 	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
+	if(!(fp=osOpen(buf,MODE_CREATEFILE)))
 	{
 		uint32_t err=osError();
 		LogWrite(1,SYSTEMERR,"Failed to create busy file %s\n",buf);
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 9658551..e04821d 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -9,6 +9,7 @@ typedef void *osFile;
 
 #define MODE_OLDFILE    1005  /* Corresponds to "rb" with fopen */
 #define MODE_NEWFILE    1006  /* Corresponds to "wb" with fopen */
+#define MODE_CREATEFILE 1007  /* Like MODE_NEWFILE, but fails if the file already exists */
 #define MODE_READWRITE  1004  /* Corresponds to "w+b" with fopen */
 
 #define OFFSET_BEGINNING -1
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 1f7f5b1..67a054e 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -16,6 +16,10 @@ osFile osOpen(char *name,uint32_t mode)
 	{
 		fh=fopen(name,"wb");
 	}
+   else if(mode == MODE_CREATEFILE)
+	{
+		fh=fopen(name,"wbx");
+	}
    else if(mode == MODE_OLDFILE) 
 	{
 		fh=fopen(name,"rb");
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index f3ecca8..66cc9a6 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -114,6 +114,12 @@ osFile osOpen(char *name,ulong mode)
       sharemode=0;
       creationdisposition=CREATE_ALWAYS;
 	}
+   else if(mode == MODE_CREATEFILE)
+	{
+      desiredaccess=GENERIC_WRITE;
+      sharemode=0;
+      creationdisposition=CREATE_NEW;
+	}
    else if(mode == MODE_OLDFILE) 
 	{
       desiredaccess=GENERIC_READ;
-- 
2.43.0


From d1e9d34cd39cbfd45765db903cebf9186c0e2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:28 +0000
Subject: [PATCH 46/59] fix: keep the configuration locked until the dupe
 database has been written

---
 src/crashmail/crashmail.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 109a79d..3de629a 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -539,12 +539,12 @@ void CleanUp(int err)
    if(done_welcomemsg)
       LogWrite(2,SYSTEMINFO,"CrashMail end");
 
-	if(done_lockconfig)
-		UnlockConfig(config.filename);
-
    if(done_init)
       Free();
 
+	if(done_lockconfig)
+		UnlockConfig(config.filename);
+
    if(done_initconfig)
       FreeConfig(&config);
 
-- 
2.43.0


From ec3cb2d29e85487cd193c05838c5dd2f75ca34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:29 +0000
Subject: [PATCH 47/59] fix: finish the run when SENDLIST or REMOVE gets an
 unknown node or area

---
 src/crashmail/crashmail.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 3de629a..e92ea62 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -421,6 +421,7 @@ bool SendAFList(char *node,short type)
       if(!Parse4D(node,&n4d))
       {
          LogWrite(1,USERERR,"Invalid node number \"%s\"",node);
+         AfterScanToss(FALSE);
          return(FALSE);
       }
 
@@ -434,6 +435,7 @@ bool SendAFList(char *node,short type)
       else
       {
          LogWrite(1,USERERR,"Unknown node %u:%u/%u.%u",n4d.Zone,n4d.Net,n4d.Node,n4d.Point);
+         AfterScanToss(FALSE);
          return(FALSE);
       }
    }
@@ -460,6 +462,7 @@ bool RemoveArea(char *areaname)
    if(!area)
    {
       LogWrite(1,USERERR,"Unknown area %s",areaname);
+      AfterScanToss(FALSE);
       return(TRUE);
    }
 
-- 
2.43.0


From 995c5d464a7c26e42e3a9900ed90164522a41ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 48/59] fix: packet numbers are not used twice in a second,
 finished packets were overwritten

---
 src/crashmail/pkt.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index fc42f57..29cc8d6 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -572,7 +572,18 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
       t=time(NULL);
       if(t == lastt) serial++;
       else serial=0;
-      if(serial == 256) serial=0;
+
+      if(serial == 256)
+      {
+         /* No more numbers for this second. The old ones cannot be used
+            again, their packets may have been finished and renamed */
+
+         while((t=time(NULL)) == lastt)
+            osSleep(1);
+
+         serial=0;
+      }
+
       lastt=t; 
       num = (t<<8) + serial;
       sprintf(buf2,"%08x.newpkt",num);
-- 
2.43.0


From f0bc6c778f44356405ab2b9ef2eb60b4081c38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:48 +0000
Subject: [PATCH 49/59] fix: the packet numbers and the names of auto-added
 directories shared one variable

---
 src/crashmail/handle.c | 2 +-
 src/crashmail/pkt.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 6829ac8..b8d6157 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -94,7 +94,7 @@ bool AddTossNode(struct Area *area,struct ConfigNode *cnode,uint16_t flags)
    return(TRUE);
 }
 
-time_t lastt;
+static time_t lastt;
 
 void MakeDirectory(char *dest,uint32_t destsize,char *defdir,char *areaname)
 {
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 29cc8d6..753bfa6 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -555,8 +555,8 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-time_t lastt;
-uint32_t serial;
+static time_t lastt;
+static uint32_t serial;
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
-- 
2.43.0


From 710059acf4fd7ca1679074d7d43529168a8a77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 50/59] fix: no crash when an AreaFix request cannot be routed
 to the remote system

---
 src/crashmail/areafix.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 14e126a..704f1e0 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1568,6 +1568,15 @@ void SendRemoteAreafix(void)
          for(tmproute=(struct Route *)config.RouteList.First;tmproute;tmproute=tmproute->Next)
             if(Compare4DPat(&tmproute->Pattern,&node->Node)==0) break;
 
+         if(!tmproute)
+         {
+            Print4D(&node->Node,buf);
+            LogWrite(1,TOSSINGERR,"No routing configured for %s, unable to send AreaFix requests",buf);
+            mmFree(mm);
+            jbFreeList(&node->RemoteAFList);
+            continue;
+         }
+
          Copy4D(&mm->DestNode,&node->Node);
          Copy4D(&mm->OrigNode,&tmproute->Aka->Node);
 
-- 
2.43.0


From 84cbdfe7eae4faad3d657a3c2cab7d6949dea45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:05 +0000
Subject: [PATCH 51/59] fix: the zone of the sender replaced the zone of the
 receiver of netmail without INTL

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 753bfa6..7370732 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -333,7 +333,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From 25a9ef600b27df9c74da6de510007d5b4d5e63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:52 +0000
Subject: [PATCH 52/59] fix: CrashMaint deleted messages dated in the future as
 too old

---
 src/tools/crashmaint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index c5ddf0d..b5d906b 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -317,7 +317,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
       {
-         if(today - msg->Day > area->KeepDays && msg->Num!=0)
+         if(msg->Day < today && today - msg->Day > area->KeepDays && msg->Num!=0)
          {
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
@@ -572,7 +572,7 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				if(day == 0)
 					day=Header_S.DateWritten / (24*60*60);
 
-			   if(today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
+			   if(day < today && today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
 				{
 					/* Not already deleted and too old*/
 
-- 
2.43.0


From 85a48008636839edf3929c18759cea694f325fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:52 +0000
Subject: [PATCH 53/59] fix: CrashMaint applied KEEPNUM and KEEPDAYS of default
 and pass-through areas to the area before

---
 src/tools/crashmaint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index b5d906b..da97c08 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -892,6 +892,8 @@ bool ReadConfig(char *file)
 
       if(stricmp(cfgword,"AREA")==0 || stricmp(cfgword,"NETMAIL")==0 || stricmp(cfgword,"LOCALAREA")==0)
       {
+         LastArea=NULL;
+
          jbstrcpy(tag,cfgbuf,80,&jbcpos); 
          jbstrcpy(aka,cfgbuf,80,&jbcpos);
 
-- 
2.43.0


From 0006db3349ac816d7134f1e8f3a95fc46f732fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:52 +0000
Subject: [PATCH 54/59] fix: CrashMaint went on renumbering after a failed
 rename and could overwrite the message

---
 src/tools/crashmaint.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index da97c08..661e283 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -381,7 +381,11 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             if(verbose)
                printf(" Renaming message %u to %u\n",msg->Num,msg->NewNum);
 
-            osRename(buf,newbuf);
+            if(!osRename(buf,newbuf))
+            {
+               printf(" Failed to rename message %u to %u, area not renumbered\n",msg->Num,msg->NewNum);
+               break;
+            }
          }
 
       if(ctrlc)
@@ -390,7 +394,8 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          return(TRUE);
       }
 
-      printf(" Area renumbered\n");
+      if(!msg)
+         printf(" Area renumbered\n");
    }
 
    jbFreeList(&MsgList);
-- 
2.43.0


From dd00678882242cc3989eb4c6a4b15d083d4e32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:52 +0000
Subject: [PATCH 55/59] fix: CrashMaint left the highwater mark above the
 renumbered messages, so that new ones were not exported

---
 src/tools/crashmaint.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 661e283..6921c74 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -206,7 +206,7 @@ void scanfunc(char *str)
 
 bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 {
-   uint32_t today,num,del,highwater,oldhighwater;
+   uint32_t today,num,del,highwater,oldhighwater,newhighwater;
    struct Msg *msg;
    char buf[200],newbuf[200],buf2[100];
    struct StoredMsg StoredMsg;
@@ -366,7 +366,10 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          }
       }
  
+      newhighwater=0;
+
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
+      {
          if(msg->Num!=0 && msg->Num!=msg->NewNum)
          {
             sprintf(buf2,"%u.msg",msg->Num);
@@ -375,9 +378,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             sprintf(buf2,"%u.msg",msg->NewNum);
 				MakeFullPath(area->Path,buf2,newbuf,200);
 
-            if(highwater == msg->Num)
-               highwater=msg->NewNum;
-
             if(verbose)
                printf(" Renaming message %u to %u\n",msg->Num,msg->NewNum);
 
@@ -388,12 +388,15 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             }
          }
 
-      if(ctrlc)
-      {
-         jbFreeList(&MsgList);
-         return(TRUE);
+         if(msg->Num!=0 && msg->Num <= highwater)
+            newhighwater=msg->NewNum;
       }
 
+      /* Messages that were not reached still have their old numbers */
+
+      if(!msg || msg->Num > highwater)
+         highwater=newhighwater;
+
       if(!msg)
          printf(" Area renumbered\n");
    }
-- 
2.43.0


From 04dd925a46f51371aa7b3b9ada1c215d378dbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:52 +0000
Subject: [PATCH 56/59] fix: CrashMaint went on packing a JAM area after it
 could not write a place-holder

---
 src/tools/crashmaint.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 6921c74..93f73fa 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -652,7 +652,16 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				{
 					if(firstwritten) 
 					{
-						JAM_AddEmptyMessage(NewBase_PS);
+						if(JAM_AddEmptyMessage(NewBase_PS))
+						{
+							printf(" Failed to copy message %d (disk full?), cannot pack messagebase\n",num+basenum);
+							JAM_UnlockMB(Base_PS);
+							JAM_CloseMB(Base_PS);
+							JAM_UnlockMB(NewBase_PS);
+							JAM_CloseMB(NewBase_PS);
+							JAM_RemoveMB(NewBase_PS,buf);
+							return(TRUE);
+						}
 					}
 					else 
 					{
@@ -677,7 +686,16 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				{
 					if(firstwritten) 
 					{
-						JAM_AddEmptyMessage(NewBase_PS);
+						if(JAM_AddEmptyMessage(NewBase_PS))
+						{
+							printf(" Failed to copy message %d (disk full?), cannot pack messagebase\n",num+basenum);
+							JAM_UnlockMB(Base_PS);
+							JAM_CloseMB(Base_PS);
+							JAM_UnlockMB(NewBase_PS);
+							JAM_CloseMB(NewBase_PS);
+							JAM_RemoveMB(NewBase_PS,buf);
+							return(TRUE);
+						}
 					}
 					else
 					{
-- 
2.43.0


From 55291718387fcb977105cd37874635013dd759ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:38 +0000
Subject: [PATCH 57/59] fix: parts that are missing in a node pattern are
 empty, not leftovers of other parts or of the stack

---
 src/crashmail/node4dpat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crashmail/node4dpat.c b/src/crashmail/node4dpat.c
index d27a0fe..5213021 100644
--- a/src/crashmail/node4dpat.c
+++ b/src/crashmail/node4dpat.c
@@ -6,6 +6,8 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
    char temp[10];
    bool GotZone=FALSE,GotNet=FALSE,GotNode=FALSE;
 
+   temp[0]=0;
+
    strcpy(node->Zone,"*");
    strcpy(node->Net,"*");
    strcpy(node->Node,"*");
@@ -22,6 +24,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Zone,temp);
          GotZone=TRUE;
 			tempc=0;
+			temp[0]=0;
 	   }
 		else if(buf[c]=='/')
 		{
@@ -29,6 +32,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Net,temp);
          GotNet=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if(buf[c]=='.')
 		{
@@ -37,6 +41,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          node->Point[0]=0;
          GotNode=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if((buf[c]>='0' && buf[c]<='9') || buf[c]=='*' || buf[c]=='?')
 		{
@@ -318,6 +323,8 @@ bool Parse2DPat(char *buf, struct Node2DPat *node)
    char temp[10];
    bool GotNet=FALSE;
 
+   temp[0]=0;
+
    strcpy(node->Net,"*");
    strcpy(node->Node,"*");
 
@@ -332,6 +339,7 @@ bool Parse2DPat(char *buf, struct Node2DPat *node)
          strcpy(node->Net,temp);
          GotNet=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if((buf[c]>='0' && buf[c]<='9') || buf[c]=='*' || buf[c]=='?')
 		{
-- 
2.43.0


From 2432d4950e63c2887efe52d3a898927eb8f77f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:33 +0000
Subject: [PATCH 58/59] fix: a lookup of 0:0/0.0 found the end mark of a
 nodelist and read a line far behind its end

---
 src/cmnllib/cmnllib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index 4fd74da..efa69b1 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -117,6 +117,9 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 			if(cmnlidx->net   != idx.net)   found=FALSE;
 			if(cmnlidx->node  != idx.node)  found=FALSE;
 			if(cmnlidx->point != idx.point) found=FALSE;
+
+			/* The end mark of a list is not a node */
+			if(idx.offset == 0xffffffff) found=FALSE;
 		}
 	}
 
-- 
2.43.0


From dff602c57e9795acf3bc937f204f52116680173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:33 +0000
Subject: [PATCH 59/59] fix: CrashList took the newest file that starts like
 the name of a nodelist, such as NODE.200 for NODELIST

---
 src/tools/crashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index c0bc4f4..c7489b7 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -91,7 +91,7 @@ void scandirfunc(char *file)
 
 	if(isnodelistending(file))
    {
-   	if(strnicmp(file,findfile,strlen(file)-4)==0)
+   	if(strlen(findfile) == strlen(file)-4 && strnicmp(file,findfile,strlen(file)-4)==0)
       {
 			MakeFullPath(finddir,file,buf,500);
 			
-- 
2.43.0

