// Simulated FreeRTOS kernel objects for host execution (one struct for every kernel object, real
// blocking by condition variables); every misuse is latched in rtos_err for the monitors.
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef long BaseType_t; typedef unsigned long UBaseType_t; typedef uint32_t TickType_t; typedef uint32_t EventBits_t; typedef uint32_t StackType_t;
#define pdTRUE 1L
#define pdFALSE 0L
#define pdPASS 1L
#define pdFAIL 0L
#define portMAX_DELAY 0xffffffffu
#define configTICK_RATE_HZ 1000
#define portTICK_PERIOD_MS 1
#define configSUPPORT_STATIC_ALLOCATION 1
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define configUSE_TASK_NOTIFICATIONS 0
#define configSTACK_DEPTH_TYPE uint32_t
typedef struct rtos_obj* SemaphoreHandle_t; typedef struct rtos_obj* QueueHandle_t; typedef struct rtos_obj* EventGroupHandle_t; typedef struct rtos_obj* TaskHandle_t; typedef struct rtos_obj* TimerHandle_t;
typedef struct { void* p[24]; } StaticSemaphore_t; typedef struct { void* p[24]; } StaticQueue_t; typedef struct { void* p[24]; } StaticEventGroup_t; typedef struct { void* p[24]; } StaticTask_t; typedef struct { void* p[24]; } StaticTimer_t;
#ifdef __cplusplus
extern "C" {
#endif
extern long rtos_live, rtos_created, rtos_deleted; extern const char* rtos_error(void); extern void rtos_error_clear(void); extern void rtos_fail_next_take(int n);
extern unsigned rtos_last_wait(void);
TickType_t xTaskGetTickCount(void); void vTaskDelay(TickType_t); void rtos_yield(void); TaskHandle_t xTaskGetCurrentTaskHandle(void);
SemaphoreHandle_t xSemaphoreCreateBinary(void); SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t*); SemaphoreHandle_t xSemaphoreCreateMutex(void); SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t*);
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex(void); SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t*); SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t, UBaseType_t); SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t, UBaseType_t, StaticSemaphore_t*);
BaseType_t xSemaphoreTake(SemaphoreHandle_t, TickType_t); BaseType_t xSemaphoreGive(SemaphoreHandle_t); BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t, TickType_t); BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t);
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t, BaseType_t*); BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t, BaseType_t*); UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t); TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t); void vSemaphoreDelete(SemaphoreHandle_t);
QueueHandle_t xQueueCreate(UBaseType_t, UBaseType_t); QueueHandle_t xQueueCreateStatic(UBaseType_t, UBaseType_t, uint8_t*, StaticQueue_t*); void vQueueDelete(QueueHandle_t); UBaseType_t uxQueueMessagesWaiting(QueueHandle_t); UBaseType_t uxQueueSpacesAvailable(QueueHandle_t);
BaseType_t xQueueOverwrite(QueueHandle_t, const void*); BaseType_t xQueueOverwriteFromISR(QueueHandle_t, const void*, BaseType_t*); BaseType_t xQueuePeek(QueueHandle_t, void*, TickType_t); BaseType_t xQueuePeekFromISR(QueueHandle_t, void*);
BaseType_t xQueueSend(QueueHandle_t, const void*, TickType_t); BaseType_t xQueueSendFromISR(QueueHandle_t, const void*, BaseType_t*); BaseType_t xQueueSendToBack(QueueHandle_t, const void*, TickType_t); BaseType_t xQueueReceive(QueueHandle_t, void*, TickType_t); BaseType_t xQueueReset(QueueHandle_t);
BaseType_t xQueueGetStaticBuffers(QueueHandle_t, uint8_t**, StaticQueue_t**);
EventGroupHandle_t xEventGroupCreate(void); EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t*); void vEventGroupDelete(EventGroupHandle_t); EventBits_t xEventGroupClearBits(EventGroupHandle_t, EventBits_t); BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t, EventBits_t);
EventBits_t xEventGroupWaitBits(EventGroupHandle_t, EventBits_t, BaseType_t, BaseType_t, TickType_t); EventBits_t xEventGroupSetBits(EventGroupHandle_t, EventBits_t); BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t, EventBits_t, BaseType_t*); EventBits_t xEventGroupSync(EventGroupHandle_t, EventBits_t, EventBits_t, TickType_t);
#ifdef __cplusplus
}
#endif
#define taskYIELD() rtos_yield()
