M='crashmail/memmessage.c'; P='crashmail/pkt.c'; H='crashmail/handle.c'; A='crashmail/areafix.c'; F='crashmail/filter.c'; C='crashmail/config.c'
J='crashmail/mb_jam.c'; MI='crashmail/misc.c'; O='crashmail/outbound.c'
CASES=[
('A17',1,'path-noguard',M,'if(path && path->Paths == PKT_NUMPATH)','if(path && path->Paths > PKT_NUMPATH)'),
('A17',1,'path-noguard2',H,'if(path && path->Paths == PKT_NUMPATH)\n','if(path && path->Paths == PKT_NUMPATH+1)\n'),
('A17',1,'nodes-guard-dropped',M,'   if(tmplist && tmplist->Nodes == PKT_NUM2D)\n      tmplist=NULL;\n',''),
('A17',0,'nodes-guard-ge',M,'if(tmplist && tmplist->Nodes == PKT_NUM2D)','if(tmplist && tmplist->Nodes >= PKT_NUM2D)'),
('A17',1,'readnull-size',P,'ReadNull(mm->Subject,72,fh);','ReadNull(mm->Subject,80,fh);'),
('A17',1,'readnull-size2',P,'ReadNull(mm->To,36,fh);','ReadNull(mm->To,72,fh);'),
('A17',1,'area-noterm',P,'mystrncpy(mm->Area,&buf[5],80);','strncpy(mm->Area,&buf[5],80);'),
('A17',1,'mystrncpy-noterm','shared/mystrncpy.c','   dest[len-1]=0;',''),
('A17',1,'area-copy',P,'mystrncpy(mm->Area,&buf[5],80);','strcpy(mm->Area,&buf[5]);'),
('A17',1,'area-size',P,'mystrncpy(mm->Area,&buf[5],80);','mystrncpy(mm->Area,&buf[5],100);'),
('A17',1,'addbuf-guard',M,'if(chunk && chunk->Length+len <= PKT_CHUNKLEN)','if(chunk && chunk->Length <= PKT_CHUNKLEN)'),
('A17',1,'addbuf-limit',M,'		if(copylen > PKT_CHUNKLEN-chunk->Length) copylen=PKT_CHUNKLEN-chunk->Length;\n','		if(copylen > PKT_CHUNKLEN) copylen=PKT_CHUNKLEN;\n'),
('A17',1,'af-line',A,'for(d=0;d<99 && chunk','for(d=0;d<199 && chunk'),
('A17',1,'af-vs',A,'vsnprintf(buf,199,fmt,args);','vsprintf(buf,fmt,args);'),
('A17',1,'af-vs2',A,'vsnprintf(buf,199,fmt,args);','vsnprintf(buf,200,fmt,args);'),
('A17',1,'jbstrcpy-off','shared/jbstrcpy.c','if(d<maxlen-1)','if(d<=maxlen)'),
('A17',1,'mystrncpy-off','shared/mystrncpy.c','   dest[len-1]=0;','   dest[len]=0;'),
('A17',1,'makefullpath-off','shared/path.c','if(d+1 < destsize)','if(d < destsize)'),
('A17',1,'makefullpath-size',O,'MakeFullPath(config.cfg_PacketDir,buf,arcname,200);','MakeFullPath(config.cfg_PacketDir,buf,arcname,250);'),
('A17',1,'seenby-line',H,'if(strlen(buf)+strlen(path->Path[path->Paths-1])<=70)','if(strlen(path->Path[path->Paths-1])<=97)'),
('A17',1,'expand-packer',MI,'for(c=0;c<strlen(cmd) && d<destsize-1;c++)','for(c=0;c<strlen(cmd);c++)'),
('A17',1,'jam-datlen',J,'mystrncpy(buf,Field_PS->Buffer,MIN(200,Field_PS->DatLen+1));','mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);'),
('A17',1,'jam-zero',J,'MIN(100,linelen-4)','MIN(100,linelen-5)'),
('A17',1,'jam-flags',J,'else if(strlen(newflags)+strlen(flag) < 190)','else'),
('A17',1,'dupe-size','crashmail/dupe.c','   if(size > 300)\n      return(TRUE);\n\n',''),
('A17',1,'dupe-size2','crashmail/dupe.c','if(size == 0 || size > 300)','if(size == 0 || size > 3000)'),
('A17',1,'dupe-eq','crashmail/dupe.c','if(size == dsize)','if(size != 0)'),
('A17',1,'v7p','crashmail/nl_v7p.c','if(v7p_ndxrecsize > V7P_NDXBUFSIZE)','if(v7p_ndxrecsize > 2*V7P_NDXBUFSIZE)'),
('A17',1,'remap',F,'mystrncpy(newto,namepat,36);','strcpy(newto,namepat);'),
('A17',1,'cfg-word',C,'jbstrcpy(cfgword,cfgbuf,30,&jbcpos)','jbstrcpy(cfgword,cfgbuf,80,&jbcpos)'),
('A17',0,'q-mystrncpy-loop','shared/mystrncpy.c','''   strncpy(dest,src,(size_t)len-1);
   dest[len-1]=0;''','''   uint32_t n;

   for(n=0;n<len-1 && src[n];n++)
      dest[n]=src[n];

   dest[n]=0;'''),
('A17',0,'q-addbuf',M,'''   if(chunk && chunk->Length+len <= PKT_CHUNKLEN)
   {
      memcpy(&chunk->Data[chunk->Length],buf,(size_t)len);
      chunk->Length+=len;

      return(TRUE);
   }
''','''   if(chunk)
   {
      uint32_t left=PKT_CHUNKLEN-chunk->Length;

      if(len <= left)
      {
         memcpy(chunk->Data+chunk->Length,buf,(size_t)len);
         chunk->Length=chunk->Length+len;

         return(TRUE);
      }
   }
'''),
('A17',0,'q-addbuf2',M,'''		if(copylen > PKT_CHUNKLEN-chunk->Length) copylen=PKT_CHUNKLEN-chunk->Length;
''','''		copylen = (copylen > PKT_CHUNKLEN-chunk->Length) ? PKT_CHUNKLEN-chunk->Length : copylen;
'''),
('A17',0,'q-expand-while',MI,'''   d=0;
   for(c=0;c<strlen(cmd) && d<destsize-1;c++)
   {
      if(cmd[c]=='%' && (cmd[c+1]|32)=='a')''','''   uint32_t len=strlen(cmd);

   d=0;
   for(c=0;c<len;c++)
   {
      if(d>=destsize-1)
         break;

      if(cmd[c]=='%' && (cmd[c+1]|32)=='a')'''),
('A17',0,'q-jbstrcpy','shared/jbstrcpy.c','''		if(d<maxlen-1)
         dest[d++]=src[jbcpos];
''','''		if(d+1<maxlen)
      {
         dest[d]=src[jbcpos];
         d++;
      }
'''),
('A17',0,'q-writesafely',C,'''   d=0;

   for(c=0;str[c];c++)
   {
      if(str[c]=='"' || str[c]=='\\\\')
         buf[d++]='\\\\';

      buf[d++]=str[c];
   }
''','''   c=0;
   d=0;

   while(str[c]!=0)
   {
      char ch=str[c];

      if(ch=='"' || ch=='\\\\')
      {
         buf[d]='\\\\';
         d++;
      }

      buf[d]=ch;
      d++;
      c++;
   }
'''),
('A17',0,'q-af-helper',A,'''   va_start(args, fmt);
   vsnprintf(buf,199,fmt,args);
   va_end(args);

   strcat(buf,"\\x0d");
''','''   va_start(args, fmt);
   vsnprintf(buf,sizeof(buf)-1,fmt,args);
   va_end(args);

   buf[strlen(buf)+1]=0;
   buf[strlen(buf)]=13;
'''),
]
