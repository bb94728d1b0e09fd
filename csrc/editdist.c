/* Edit distances between all pairs of equally long pixel strings.
 *
 * editdist OUT NOFF NSTR LEN THREADS FULL < input
 * input: 16*16 uint32 substitution costs, then NOFF*NSTR*LEN bytes (pixels).
 * OUT: NOFF*NSTR*NSTR uint16 with entry [o][i*NSTR+j] for j<i, else 0
 * (all j if FULL), written at the current end of OUT (which already holds a .npy header).
 *
 * Substitution and adjacent transposition (cost 1) only: insertions and
 * deletions cost more than any complete substitution.
 */
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static uint32_t cost[16][16];
static uint8_t *px;
static uint16_t *out;
static size_t noff, nstr, len;
static int nthreads, full;

static void *work(void *arg)
{
    size_t t = (size_t)arg;
    for (size_t o = 0; o < noff; o++)
        for (size_t i = t; i < nstr; i += nthreads) {
            const uint8_t *a = px + (o * nstr + i) * len;
            uint16_t *row = out + (o * nstr + i) * nstr;
            for (size_t j = 0; j < (full ? nstr : i); j++) {
                const uint8_t *b = px + (o * nstr + j) * len;
                uint32_t d2 = 0, d1 = cost[a[0]][b[0]];
                for (size_t k = 1; k < len; k++) {
                    uint32_t d = d1 + cost[a[k]][b[k]];
                    if (a[k] == b[k - 1] && a[k - 1] == b[k] && d2 + 1 < d)
                        d = d2 + 1;
                    d2 = d1;
                    d1 = d;
                }
                row[j] = d1;
            }
        }
    return 0;
}

int main(int argc, char **argv)
{
    if (argc != 7)
        return 2;
    noff = atol(argv[2]);
    nstr = atol(argv[3]);
    len = atol(argv[4]);
    nthreads = atoi(argv[5]);
    full = atoi(argv[6]);
    if (fread(cost, sizeof cost, 1, stdin) != 1)
        return 3;
    px = malloc(noff * nstr * len);
    if (fread(px, len, noff * nstr, stdin) != noff * nstr)
        return 3;
    int fd = open(argv[1], O_RDWR);
    struct stat st;
    if (fd < 0 || fstat(fd, &st))
        return 4;
    size_t head = st.st_size, size = noff * nstr * nstr * 2;
    if (head % 64 || ftruncate(fd, head + size))
        return 5;
    uint8_t *map = mmap(0, head + size, PROT_READ | PROT_WRITE, MAP_SHARED,
                        fd, 0);
    if (map == MAP_FAILED)
        return 6;
    out = (uint16_t *)(map + head);
    pthread_t th[64];
    for (long t = 0; t < nthreads; t++)
        pthread_create(&th[t], 0, work, (void *)t);
    for (long t = 0; t < nthreads; t++)
        pthread_join(th[t], 0);
    munmap(map, head + size);
    return 0;
}
