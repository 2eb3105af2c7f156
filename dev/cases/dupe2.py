D='crashmail/dupe.c'
CASES=[
('A08',1,'ring-swap',D,"""   if(dupeentrynum > dupeentrymax)
      dupeentrymax=dupeentrynum;

   if(dupeentrynum == config.cfg_DupeSize)
      dupeentrynum=0;
""","""   if(dupeentrynum == config.cfg_DupeSize)
      dupeentrynum=0;

   if(dupeentrynum > dupeentrymax)
      dupeentrymax=dupeentrynum;
"""),
('A08',0,'r-ring-local',D,"""   dupebuf[dupeentrynum].offset=offset;
   dupebuf[dupeentrynum].crc32=crc32;

   dupeentrynum++;

   if(dupeentrynum > dupeentrymax)
      dupeentrymax=dupeentrynum;

   if(dupeentrynum == config.cfg_DupeSize)
      dupeentrynum=0;
""","""   struct dupeentry *e=&dupebuf[dupeentrynum];
   uint32_t next=dupeentrynum+1;

   e->crc32=crc32;
   e->offset=offset;

   if(dupeentrymax < next)
      dupeentrymax=next;

   dupeentrynum = next >= config.cfg_DupeSize ? 0 : next;
"""),
('A08',0,'r-ring-mod',D,"""   if(dupeentrynum == config.cfg_DupeSize)
      dupeentrynum=0;
""","""   dupeentrynum %= config.cfg_DupeSize;
"""),
('A08',1,'offset-start',D,"   offset=4;\n","   offset=0;\n"),
('A08',1,'offset-step',D,"      offset += size+2;","      offset += size;"),
('A08',0,'r-offset-step',D,"      offset += size+2;","      offset += sizeof(uint16_t);\n      offset += size;"),
('A08',1,'add-begin',D,"   osSeek(dupefh,0,OFFSET_END);\n   offset=osFTell(dupefh);\n","   offset=osFTell(dupefh);\n   osSeek(dupefh,0,OFFSET_END);\n"),
('A08',1,'add-not-changed',D,"   adddupeindex(offset,crc32);\n\n   dupechanged=TRUE;","   if(dupeentrynum == 0) dupechanged=TRUE;\n   adddupeindex(offset,crc32);"),
('A08',1,'size-short',D,"   dsize += strlen(mm->Area) + 1;","   dsize += strlen(mm->Area);"),
('A08',1,'skip-small',D,"      adddupeindex(offset,crc32);\n\n      offset","      if(crc32 != 0) adddupeindex(offset,crc32);\n\n      offset"),
('A08',1,'seek-other',D,"         osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);","         osSeek(dupefh,dupebuf[0].offset,OFFSET_BEGINNING);"),
('A08',0,'r-laid',D,"""   strcpy(&dbuf[dsize],mm->MSGID);
   dsize += strlen(mm->MSGID) + 1;

   strcpy(&dbuf[dsize],mm->Area);
   dsize += strlen(mm->Area) + 1;
""","""   strcpy(dbuf+4,mm->MSGID);
   dsize = 4 + strlen(mm->MSGID) + 1;
   strcpy(dbuf+dsize,mm->Area);
   dsize = dsize + 1 + strlen(mm->Area);
"""),
]
