P = 'crashmail/pkt.c'
CASES = [
 ('A15', 1, 'num-wrap', P, """      if(serial == 256)
      {""", """      serial%=256;
      if(serial == 256)
      {"""),
 ('A15', 1, 'num-nowait', P, """         while((t=time(NULL)) == lastt)
            osSleep(1);
""", """         osSleep(1);
"""),
 ('A15', 1, 'num-notnoted', P, """      lastt=t; 
      num""", """      num"""),
 ('A15', 1, 'num-noexist', P, """   } while(osExists(buf));

   if(!(pkt=""", """   } while(0);

   if(!(pkt="""),
 ('A15', 1, 'num-512', P, """      if(serial == 256)
""", """      if(serial == 512)
"""),
 ('A15', 1, 'num-shared', P, """static time_t lastt;
""", """time_t lastt;
""", 'crashmail/handle.c', "static time_t lastt;", "extern time_t lastt;"),
 ('A15', 1, 'num-existother', P, """   } while(osExists(buf));

   if(!(pkt=""", """   } while(osExists(buf2));

   if(!(pkt="""),
 ('A15', 1, 'num-always0', P, """      if(t == lastt) serial++;
      else serial=0;
""", """      if(t == lastt+1) serial++;
      else serial=0;
"""),
 ('A15', 0, 'r-num-helper', P, """struct Pkt *CreatePkt(struct Node4D *dest""", """static time_t NextNumber(void)
{
   time_t t;

   t=time(NULL);

   if(t != lastt)
   {
      serial=0;
   }
   else
   {
      serial++;

      if(serial > 255)
      {
         do
         {
            osSleep(1);
            t=time(NULL);
         } while(t == lastt);

         serial=0;
      }
   }

   lastt=t;
   return(t);
}

struct Pkt *CreatePkt(struct Node4D *dest""", P, """      t=time(NULL);
      if(t == lastt) serial++;
      else serial=0;

      if(serial == 256)
      {
         /* No more numbers for this second. The old ones cannot be used
            again, their packets may have been finished and renamed */

         while((t=time(NULL)) == lastt)
            osSleep(1);

         serial=0;
      }

      lastt=t; 
""", """      t=NextNumber();
"""),
]
